"""What each behavioural check explores: bounded instances of spec/MC.tla (every transition of
which is replayed), random behaviours of larger instances, and how logs are checked."""
from profiles import mc

MK = "mk mku tv box small drop "
CONT = "push pushbox pushcl pushref resize fill clear append extend extmix rotl rotr reserve get set cfs "
VIEW = "view sub split chunk reb vget vset vswap vrotl vcfs vssw vlist vchunks "
EQ = "eq eqv hash hashv dbg dbgv "
ALL = MK + CONT + "from into tf collect colmix check checkr clone tovec appvec swap assign clonefrom copyval boxof smallof down " \
    + EQ + "up undyn " + VIEW + "vdbg veq vup"
CAPS = ("drop", "clone", "partialeq", "eq", "hash", "debug", "dyn")
S12 = "d0 d1 c0 c1 b0 b1 s0 s1 t0 t1 u0 u1 x0 x1 y0 e0 e1"
VCAPS = CAPS[:-1]
# The types of the layouts with great alignments.
HUGE_N = ("N=d24", "N=d12", "N=d192", "N=p12", "N=d32", "N=d1536")
HUGE_K = ("K=c48", "K=c192", "K=c12")
HUGES = tuple(range(8))


class Bfs:
    """All transitions of a bounded instance, replayed with `binds` bindings of its types."""

    only = None

    def __init__(self, consts, binds=4, words=False, huge=()):
        self.consts, self.binds, self.words, self.sim = consts, binds, words, False
        self.huge = huge    # bindings to types of great alignment


class Sim:
    """Random behaviours: `num` of `depth` operations for each of `procs` seeds."""

    def __init__(self, consts, num=60, depth=100, procs=4, binds=3, words=False, only=None):
        consts["Sim"] = True
        self.only = only    # bindings, if not any will do
        self.consts, self.num, self.depth, self.procs, self.binds = consts, num, depth, procs, binds
        self.words, self.sim, self.huge = words, True, ()


def plan(prop, big):
    """big: the thorough tier."""
    x = 8 if big else 1
    more = 1 if big else 0

    def sim(use, slots=S12, types="A B C K N", vals=(0, 1, 4, 7), max_len=6, max_view=3, mk_lens=(0, 1, 2, 3, 5),
            mk_hows=("list", "type", "size", "cap"), oob=False, wrong=False, huges=(), caps=CAPS, max_live=7,
            num=60, procs=4, binds=3, depth=100, words=True, only=None):
        return Sim(mc(slots, types, use, vals, max_len, max_view, mk_lens, mk_hows, oob, wrong, huges, caps, max_live),
                   num=num * x, depth=depth, procs=procs * (2 if big else 1), binds=binds * (2 if big else 1), words=words, only=only)

    if prop == "C01":
        use = MK + CONT + "from into tf collect colmix check checkr tovec appvec swap assign clonefrom copyval down"
        typed = "mk drop push resize fill cfs get set check checkr into tovec clear from tf"
        return [
            # Every typed entry point, both for empty and non-empty containers, layouts equal.
            Bfs(mc("d0 t0", "A B N", typed, max_len=2, wrong=True, max_live=2)),
            Bfs(mc("c0 t0", "C E K", typed, max_len=2, wrong=True, max_live=2)),
            Bfs(mc("d0 b0 s0 t0", "A B", "mk box small drop down checkr set get assign swap clonefrom pushbox pushcl",
                   vals=(0, 1), max_len=1 + more, mk_lens=(0, 1), wrong=True, max_live=3), words=True),
            Bfs(mc("d0 d1", "A B", "mk push append pushcl swap clonefrom", vals=(0, 1), max_len=2, wrong=True, mk_hows=("type", "list"))),
            Bfs(mc("c0 c1", "C E K", "mk pushref extend collect copyval swap", vals=(0,), max_len=2, wrong=True, mk_hows=("type", "list"))),
            Bfs(mc("e0 t0", "C E K", "mku drop push resize fill cfs get set check checkr into tovec clear", vals=(0, 1), max_len=1 + more, mk_lens=(0, 1), wrong=True, max_live=1, caps=("drop", "hash", "dyn"))),
            Bfs(mc("c0 c1 c2", "C E K", "mk extmix colmix", vals=(0,), max_len=3, mk_lens=(0, 2), wrong=True, mk_hows=("list",), max_live=2)),
            Bfs(mc("e0 e1", "C E", "mku extmix colmix", vals=(0,), max_len=3, mk_lens=(0, 2), wrong=True, caps=("drop", "hash"), max_live=2)),
            Bfs(mc("e0 e1 c0", "C E K", "mku mk pushref extend append copyval swap", vals=(0,), max_len=1 + more, mk_lens=(0, 1), wrong=True, max_live=2, mk_hows=("list",), caps=("drop", "clone", "dyn"))),
            Bfs(mc("d0", "A B C", "mk view vget vset vcfs vlist sub", vals=(0, 1), max_len=2, max_view=1 + more, wrong=True, mk_hows=("type", "list"))),
            Bfs(mc("c0", "C E K", "mk view vget vset vcfs vlist sub", vals=(0, 1), max_len=2, max_view=1 + more, wrong=True, mk_hows=("type", "list"))),
            sim(use + " view vget vset vcfs vlist sub", types="A B C E N", wrong=True),
        ]
    if prop == "C02":
        return [
            Bfs(mc("d0 b0 s0 t0", "A B", "mk box small tv from into drop push pushbox down assign check clear resize",
                   vals=(0,), max_len=2, mk_lens=(0, 1), wrong=True, max_live=3), words=True),
            Bfs(mc("d0 d1 t0", "A", "mk from into drop append clone swap clear", vals=(0,), max_len=2 + more, mk_lens=(0, 2), max_live=3)),
            Bfs(mc("d0 u0", "A N", "mk mku drop up undyn push clear resize into clone fill", vals=(0, 1), max_len=2, caps=CAPS, max_live=2)),
            Bfs(mc("u0 u1 b0", "A N", "mku box drop swap assign clonefrom pushbox pushcl append", vals=(0,), max_len=1 + more, mk_lens=(0, 1), caps=CAPS, max_live=2, wrong=True)),
            Bfs(mc("b0 b1 s0 s1", "A", "box small drop assign swap clone clonefrom boxof smallof down", vals=(0, 1), max_live=3), words=True),
            Bfs(mc("b0 s0 x0 x1 y0", "A", "box small up drop assign clone down boxof smallof", vals=(0,), caps=VCAPS, max_live=2), words=True),
            Bfs(mc("d0 s0 b0", "A N", "mk small box assign drop pushbox", vals=(0,), max_len=1, mk_lens=(0, 1), wrong=True), words=True),
            sim(ALL, wrong=True, oob=True, huges=(0, 1)),
            sim(MK + "push pushbox pushcl append clear resize fill from into tf clone tovec appvec swap assign clonefrom boxof smallof down check up undyn view vset vswap vcfs sub",
                types="A B N", wrong=True, num=40),
        ]
    if prop == "C03":
        use = "mk tv drop from into tf collect push pushref pushcl clear append extend resize fill rotl rotr reserve get set cfs clone tovec appvec"
        return [
            Bfs(mc("d0", "A", "mk drop push resize fill clear rotl rotr get set cfs into clone", max_len=3, mk_lens=(0, 1, 3)), binds=8),
            Bfs(mc("c0 t0", "C", "mk drop push resize fill clear rotl rotr reserve get set cfs into from", vals=(0, 1), max_len=2 + more, mk_lens=(0, 2),
                   mk_hows=("type", "size", "list", "cap"), max_live=2), binds=8),
            Bfs(mc("d0", "N", "mk drop push resize fill clear rotl rotr get set cfs", max_len=3, mk_lens=(0, 3)), binds=7),
            Bfs(mc("d0 t0 b0", "N", "mk box drop from into push pushbox pushcl clear resize", vals=(0,), max_len=3, mk_lens=(0, 2),
                   mk_hows=("type", "size", "list", "cap"), max_live=2), binds=7),
            Bfs(mc("c0 c1", "K", "mk extend extmix collect colmix append pushref clear reserve", vals=(0, 1), max_len=2 + more, mk_lens=(0, 2))),
            Bfs(mc("e0 e1", "C", "mku drop push extend append resize fill clear rotl rotr reserve get set cfs clone", vals=(0,), max_len=2 + more, mk_lens=(0, 2), caps=("drop", "dyn"))),
            # Great alignments (at which nothing can be rotated).
            Bfs(mc("d0 d1", "N", "mk push pushcl append resize fill clear reserve clone drop set get cfs into tf", vals=(0,), max_len=3, mk_lens=(0, 2), mk_hows=("type", "list"), max_live=2), binds=1, huge=HUGE_N),
            Bfs(mc("c0 c1", "K", "mk push pushref append extend resize fill clear reserve clone drop set get cfs tf collect", vals=(0,), max_len=3, mk_lens=(0, 2), mk_hows=("type", "list"), max_live=2), binds=1, huge=HUGE_K),
            # Long histories with many elements: reallocation from every capacity.
            sim(use, slots="d0 d1 t0", types="A", max_len=40, mk_lens=(0, 1, 2, 5, 9), max_live=3, binds=8, procs=2, words=False, vals=(0, 1, 2)),
            sim(use, slots="d0 d1 t0", types="N", max_len=40, mk_lens=(0, 1, 2, 5, 9), max_live=3, binds=7, procs=2, words=False, vals=(0, 1, 2)),
            sim(use, slots="c0 c1 t0", types="C", max_len=40, mk_lens=(0, 1, 2, 5, 9), max_live=3, binds=8, procs=2, words=False, vals=(0, 1, 2)),
            sim(use, slots="c0 c1 t0 d0", types="K", max_len=40, mk_lens=(0, 1, 2, 5, 9), max_live=3, binds=3, procs=2, words=False, vals=(0, 1, 2)),
            # Hundreds of elements (of kinds which the registry does not have to tell apart).
            sim("mk tv drop from into push append extend clear resize fill rotl rotr reserve get set cfs clone tovec appvec view split vlist vchunks vrotl eq",
                slots="d0 d1 c0 c1 t0", types="A C", max_len=900, mk_lens=(0, 150, 270), max_live=3, num=15, depth=30, procs=2, words=False, only=["A=p8,C=c1", "A=p12,C=c12"]),
        ]
    if prop == "C04":
        use = "mk tv box small drop clone tovec appvec boxof smallof clonefrom pushcl push set clear resize fill into down"
        return [
            Bfs(mc("d0 d1 t0", "A", "mk clone tovec drop push set clear into resize", max_len=2, mk_lens=(0, 2), mk_hows=("list",), max_live=3)),
            Bfs(mc("d0 d1", "N", "mk clone drop push set clear append fill", max_len=2, mk_lens=(0, 2), mk_hows=("list",)), binds=7),
            Bfs(mc("c0 c1 t0", "C", "mk clone tovec drop push set clear appvec", max_len=2, mk_lens=(0, 2), mk_hows=("list",), max_live=2 + more)),
            Bfs(mc("d0 b0 s0 b1 s1", "A", "mk box small boxof smallof clone clonefrom set drop pushcl", max_len=1, mk_lens=(1,), mk_hows=("list",), max_live=3), words=True),
            Bfs(mc("d0 t0 b0", "N", "mk tv box appvec tovec clonefrom boxof set drop", vals=(0, 1), max_len=1 + more, mk_lens=(1,), mk_hows=("list",), max_live=2), binds=7),
            Bfs(mc("d0 u0 u1", "A", "mk up clone tovec set drop push clear", max_len=2, mk_lens=(0, 2), mk_hows=("list",), caps=("clone", "drop", "hash"), max_live=2)),
            Bfs(mc("u0 u1", "A N", "mku clone clonefrom pushcl set drop", vals=(0, 1), max_len=2, mk_lens=(0, 1), caps=("clone", "dyn"))),
            sim(use + " mku swap assign from tf append up undyn"),
        ]
    if prop == "C05":
        v8 = tuple(range(8))
        return [
            Bfs(mc("d0 d1", "A", "mk eq hash dbg", vals=(0, 1, 4, 7), max_len=2, mk_hows=("list",))),
            Bfs(mc("d0 d1", "N B", "mk eq eqv hash hashv dbg dbgv", vals=(0, 4), max_len=2, mk_hows=("list",))),
            Bfs(mc("b0 b1 s0 s1", "A B", "box small eq eqv hash hashv dbgv", vals=(0, 1, 4, 7), max_live=2), words=True),
            Bfs(mc("d0 b0 t0", "A C", "mk tv box eqv hashv dbgv", vals=(0, 4, 7), max_len=1, mk_lens=(1,), mk_hows=("list",), max_live=2)),
            Bfs(mc("c0 c1 t0", "C", "mk tv eqv hashv dbgv", vals=v8[:5], max_len=1, mk_lens=(1,), mk_hows=("list",), max_live=2)),
            Bfs(mc("e0 e1 c0 t0", "C", "mk mku tv up eqv hashv dbgv", vals=(0, 4, 7), max_len=2, mk_lens=(1, 2), mk_hows=("list",), caps=("partialeq", "eq", "hash", "debug", "dyn"), max_live=1)),
            Bfs(mc("e0 e1 c0 t0", "C K", "mk mku tv eqv hashv dbgv", vals=(0, 4, 7), max_len=1, mk_lens=(1,), mk_hows=("list",), caps=("partialeq", "eq", "hash", "debug", "dyn"), max_live=2)),
            Bfs(mc("d0", "A", "mk view vdbg veq vup sub", vals=(0, 4, 7), max_len=2 + more, mk_lens=(0, 1, 2), mk_hows=("list",), max_view=2)),
            Bfs(mc("d0 u0 u1", "A", "mk up eq hash dbg", vals=(0, 1, 4), max_len=2, mk_hows=("list",), caps=("partialeq", "eq", "hash", "debug", "dyn"), max_live=2)),
            Bfs(mc("u0 u1 t0", "A B", "mku tv eqv hashv dbgv", vals=(0, 4, 7), max_len=1, mk_lens=(1,), caps=("partialeq", "eq", "hash", "debug", "dyn"), max_live=2)),
            Bfs(mc("b0 x0 x1 s0 y0 y1", "A B", "box small up eq eqv hash hashv dbgv", vals=(0, 4, 7), caps=("partialeq", "eq", "hash", "debug"), max_live=2), words=True),
            sim("mk mku tv box small drop push set " + EQ + "up view sub vdbg veq vup", vals=v8),
        ]
    if prop == "C06":
        w = "mk view sub split chunk reb vget vset vswap vrotl vcfs vssw vlist vchunks"
        return [
            Bfs(mc("d0", "A", w, vals=(0,), max_len=3, mk_lens=(0, 1, 3), mk_hows=("list",), max_view=2), binds=4),
            Bfs(mc("c0", "C", w, vals=(0,), max_len=3, mk_lens=(0, 1, 3), mk_hows=("list",), max_view=2), binds=4),
            Bfs(mc("d0", "N", "mk view sub split chunk vswap vrotl vlist vchunks", vals=(0, 1), max_len=3, mk_lens=(3,), mk_hows=("list",), max_view=1 + more), binds=7),
            Bfs(mc("t0", "A K", "tv view sub split vset vswap vrotl vlist", vals=(0, 1), max_len=2, mk_lens=(0, 2), mk_hows=("list",), max_view=2), binds=7),
            Bfs(mc("c0", "K", "mk view sub split vswap vrotl vcfs vlist vchunks", vals=(0, 1), max_len=2 + more, mk_lens=(0, 2), mk_hows=("list",), max_view=1 + more), binds=3),
            sim("mk tv drop push " + VIEW, max_len=9, max_view=5, mk_lens=(0, 2, 5, 7, 9), max_live=3, vals=(0, 1, 2, 3), words=False),
        ]
    if prop == "C07":
        o = dict(oob=True, mk_hows=("list",), vals=(0, 1))
        return [
            Bfs(mc("d0", "A", "mk get set rotl rotr cfs", max_len=2, huges=HUGES, **o), binds=8),
            Bfs(mc("c0", "C", "mk get set rotl rotr cfs reserve", max_len=2, huges=HUGES, **o), binds=8),
            Bfs(mc("d0", "N", "mk get set rotl rotr cfs", max_len=2, huges=HUGES, **o), binds=7),
            Bfs(mc("c0 d0", "K", "mk get set rotl rotr cfs pushref pushcl", max_len=1, huges=HUGES, **o), binds=3),
            Bfs(mc("u0 t0", "A", "mku tv get set rotl rotr swap clonefrom pushcl eqv hashv dbgv", max_len=1, mk_lens=(1,), caps=("clone", "eq", "hash", "dyn"), max_live=2, huges=(0, 4), oob=True, vals=(0,))),
            Bfs(mc("e0 t0", "C", "mku tv get set rotl rotr cfs reserve pushref swap clonefrom copyval eqv hashv dbgv", max_len=1, mk_lens=(0, 1), caps=("clone", "eq", "hash", "dyn"), max_live=2, huges=(0, 4), oob=True, vals=(0,))),
            Bfs(mc("d0 d1 b0", "A", "mk box swap clonefrom assign eqv hashv dbgv boxof smallof pushcl", max_len=1, huges=(0, 1, 4, 7), mk_lens=(0, 1), max_live=2, oob=True, mk_hows=("list",), vals=(0, 1)), words=True),
            Bfs(mc("c0 c1 t0", "C", "mk swap copyval pushref eqv hashv dbgv", max_len=1, huges=(0, 1, 4, 7), mk_lens=(0, 1), max_live=2, oob=True, mk_hows=("list",), vals=(0, 1))),
            Bfs(mc("d0", "A", "mk view sub split chunk vget vset vswap vrotl vcfs vssw vchunks veq", max_len=2, max_view=1, mk_lens=(0, 2), huges=(0, 3, 5, 7), oob=True, mk_hows=("list",), vals=(0,)), binds=8),
            Bfs(mc("c0", "C", "mk view sub split chunk vget vset vswap vrotl vcfs vssw vchunks", max_len=2, max_view=1, mk_lens=(0, 2), huges=(0, 3, 5, 7), oob=True, mk_hows=("list",), vals=(0,)), binds=8),
            Bfs(mc("d0 c0", "K", "mk view sub split chunk vget vswap vrotl", max_len=2, max_view=2, mk_lens=(2,), huges=(1, 2), oob=True, mk_hows=("list",), vals=(0,), max_live=1), binds=3),
            sim("mk tv drop push get set cfs rotl rotr resize reserve swap copyval pushcl pushref eqv " + VIEW + "veq", oob=True, huges=HUGES, words=False, binds=4),
        ]
    if prop == "C08":
        use = "mk mku tv box small drop from into tf collect check push pushbox pushcl pushref clear append extend resize fill reserve clone tovec appvec boxof smallof down assign clonefrom up undyn rotl"
        return [
            Bfs(mc("d0 t0", "A", "mk tv drop from into push clear resize tf", vals=(0,), max_len=3, mk_lens=(0, 1, 3), mk_hows=("type", "size", "list", "cap"), max_live=2), binds=8),
            Bfs(mc("c0 t0", "C", "mk tv drop from into push clear resize reserve tf", vals=(0,), max_len=2, mk_lens=(0, 2), mk_hows=("type", "size", "list", "cap"), max_live=2), binds=8),
            Bfs(mc("d0 b0", "N", "mk box drop pushbox boxof assign down clone push", vals=(0,), max_len=1, mk_lens=(0, 1), mk_hows=("type", "cap"), wrong=True), binds=7),
            Bfs(mc("b0 x0 x1 u0", "N", "box up drop assign clone down boxof pushbox tf", vals=(0,), max_len=1, mk_lens=(0, 1), caps=VCAPS, max_live=2), binds=7),
            Bfs(mc("u0 u1 b0", "N", "mku box tf push pushbox drop append", vals=(0,), max_len=2, mk_lens=(0, 1), caps=CAPS, max_live=2), binds=7),
            Bfs(mc("c0 e0 e1", "C K", "mk mku up undyn tf clone collect push extend append clear drop into reserve", vals=(0,), max_len=1 + more, mk_lens=(0, 1), mk_hows=("list",), caps=("drop", "clone", "dyn"), max_live=2)),
            Bfs(mc("d0 b0", "N", "mk box drop push pushbox pushcl resize clear clone boxof assign clonefrom down tf into", vals=(0,), max_len=2, mk_lens=(0, 2), mk_hows=("type", "list"), max_live=2), binds=1, huge=HUGE_N),
            Bfs(mc("c0 c1", "K", "mk drop push pushref append extend resize clear reserve clone tf collect into", vals=(0,), max_len=2, mk_lens=(0, 2), mk_hows=("type", "list"), max_live=2), binds=1, huge=HUGE_K),
            sim(use, num=25, max_len=12, wrong=True, procs=2),
            sim(use, slots="d0 d1 t0 b0", types="A", max_len=30, mk_lens=(0, 1, 3, 7), max_live=4, binds=8, num=8, procs=2, words=False),
            sim(use, slots="c0 c1 t0", types="K", max_len=30, mk_lens=(0, 1, 3, 7), max_live=3, binds=3, num=8, procs=2, words=False),
        ]
    if prop == "C09":
        return [
            Bfs(mc("d0", "A", "mk push resize fill clear set cfs clone drop into check eq hash dbg", vals=(0, 1), max_len=3 if big else 2, mk_lens=(0, 2), mk_hows=("list", "size"), max_live=1), binds=2),
            Bfs(mc("d0 d1 b0", "A", "mk box push pushcl pushbox clonefrom assign boxof append swap eq eqv drop clone", vals=(0,), max_len=2, mk_lens=(2,), mk_hows=("list",), max_live=2), binds=2),
            Bfs(mc("b0 b1 s0", "A", "box small clone assign clonefrom set down drop eq hashv dbgv smallof boxof", vals=(0, 1), max_live=2), binds=1, words=True),
            Bfs(mc("d0 t0", "N", "mk tv tovec appvec from into drop resize", vals=(0,), max_len=2, mk_lens=(0, 2), mk_hows=("list",), max_live=2), binds=2),
            Bfs(mc("c0 c1", "K", "mk extend extmix colmix collect push drop", vals=(0, 1), max_len=3, mk_lens=(0, 2), mk_hows=("list",)), binds=2),
            Bfs(mc("e0 e1 c0", "K", "mk mku up extend collect undyn eqv hashv dbgv clonefrom drop", vals=(0,), max_len=2, mk_lens=(2,), mk_hows=("list",), caps=("clone", "eq", "hash", "debug", "dyn"), max_live=2), binds=1),
            Bfs(mc("d0 u0", "A", "mk mku push resize fill drop", vals=(0,), max_len=2, mk_lens=(0, 2), mk_hows=("list",), caps=("clone", "dyn")), binds=1),
            Bfs(mc("u0 u1 b0", "A", "mku box clonefrom assign pushcl resize fill clear eqv hashv dbgv drop set", vals=(0,), max_len=2, mk_lens=(1,), caps=("clone", "eq", "hash", "debug", "dyn"), max_live=2), binds=1),
            Bfs(mc("b0 x0 x1 y0 s0", "A", "box small up drop assign clonefrom down eq eqv hash dbgv set", vals=(0,), caps=("clone", "eq", "hash", "debug"), max_live=2), binds=1, words=True),
            Bfs(mc("b0 x0 x1 y0 s0", "A", "box small up clone boxof smallof", vals=(0,), caps=("clone",), max_live=1), binds=1, words=True),
            Bfs(mc("d0", "A", "mk view sub vset vcfs vdbg veq vup", vals=(0,), max_len=2, mk_lens=(2,), mk_hows=("list",), max_view=1), binds=1),
            sim(ALL, num=8, wrong=True, procs=4, binds=1, max_live=5, slots="d0 d1 c0 b0 s0 t0 u0 x0 y0"),
        ]
    if prop == "C10":
        val = "up swap assign clonefrom copyval eqv boxof smallof set get clone down "
        return [
            Bfs(mc("d0 b0 s0", "A B", "mk box small swap assign clonefrom set", vals=(0, 1), max_len=1, mk_lens=(1,), mk_hows=("list",), wrong=True, max_live=2), words=True),
            Bfs(mc("d0 b0 t0", "A N", "mk tv box swap assign clonefrom", vals=(0,), max_len=2, mk_lens=(1, 2), mk_hows=("list",), max_live=2, wrong=True)),
            Bfs(mc("c0 c1 t0", "C E K", "mk tv swap copyval", vals=(0, 1), max_len=1, mk_lens=(1,), mk_hows=("list",), max_live=2, wrong=True)),
            Bfs(mc("b0 b1 s0 s1", "A B", "box small swap assign clonefrom clone boxof smallof down drop", vals=(0, 1), max_live=2, wrong=True), words=True),
            Bfs(mc("u0 u1 b0 t0", "A N", "mku box tv swap assign clonefrom set", vals=(0, 1), max_len=1, mk_lens=(1,), caps=("drop", "clone", "debug", "dyn"), max_live=2, wrong=True)),
            Bfs(mc("x0 x1 y0 b0 s0", "A B", "box small up swap assign clonefrom set get down", vals=(0, 1), caps=("drop", "clone"), max_live=2, wrong=True), words=True),
            Bfs(mc("b0 x0 s0 y0", "A N", "box small up boxof smallof", vals=(0, 1), caps=("drop", "clone"), max_live=1), words=True),
            Bfs(mc("b0 s0 x0 y0 d0 u0", "A B", "box small mk mku up swap assign clonefrom eqv", vals=(0,), max_len=1, mk_lens=(1,), mk_hows=("list",), caps=("drop", "clone", "eq"), max_live=2, wrong=True), words=True),
            Bfs(mc("c0 c1 t0", "C K", "mk tv swap clonefrom copyval", vals=(0, 1), max_len=1, mk_lens=(1,), mk_hows=("list",), max_live=2)),
            Bfs(mc("e0 e1 c0 t0", "C K", "mk mku tv swap clonefrom copyval set", vals=(0, 1), max_len=1, mk_lens=(1,), mk_hows=("list",), caps=("drop", "clone", "dyn"), max_live=2, wrong=True)),
            Bfs(mc("d0 d1", "N", "mk swap clonefrom pushcl", vals=(0, 1), max_len=2, mk_lens=(2,), mk_hows=("list",)), binds=7),
            Bfs(mc("d0 d1", "A", "mk swap clonefrom", vals=(0, 1), max_len=2, mk_lens=(2,), mk_hows=("list",)), binds=8),
            sim(MK + val + "push pushbox pushcl pushref eqv hashv", wrong=True, words=True),
            sim(MK + val + "push pushbox", types="N M K A", wrong=True, num=30, words=True),
        ]
    if prop == "C11":
        return [
            Bfs(mc("d0 u0", "A", "mk up undyn push pushbox pushcl clear get set rotl into checkr drop clone tovec resize fill hash dbg",
                   vals=(0, 1), max_len=2, mk_lens=(0, 2), mk_hows=("list",), caps=CAPS, max_live=2)),
            Bfs(mc("d0 u0 u1", "A", "mk up eq append hash dbg undyn drop", vals=(0, 4), max_len=2, mk_lens=(0, 1), mk_hows=("list",), caps=CAPS, max_live=2)),
            Bfs(mc("d0 u0 b0", "N", "mk box up undyn pushbox pushcl drop clear swap", vals=(0,), max_len=1, mk_lens=(0, 1), mk_hows=("list",), caps=CAPS, max_live=2), binds=7),
            Bfs(mc("u0 d0", "A", "mk mku up undyn tf push get set clear into checkr drop clone fill hash dbg", vals=(0, 1), max_len=1 + more, mk_lens=(0, 1), mk_hows=("list",), caps=CAPS, max_live=2)),
            Bfs(mc("u0 u1", "A", "mku tf swap clonefrom pushcl append eq eqv hashv dbgv drop", vals=(0, 4), max_len=2, mk_lens=(0, 1, 2), caps=CAPS)),
            Bfs(mc("u0 d0 b0 s0", "A", "mku mk box small swap clonefrom assign eqv hashv pushcl", vals=(0, 1), max_len=1, mk_lens=(1,), mk_hows=("list",), caps=CAPS, max_live=2), words=True),
            Bfs(mc("b0 s0 x0 x1 y0 y1", "A", "box small up swap assign clonefrom set get checkr down eq eqv hash hashv dbgv drop", vals=(0, 4), caps=VCAPS, max_live=2), words=True),
            Bfs(mc("b0 s0 x0 y0", "A", "box small up clone boxof smallof", vals=(0, 4), caps=VCAPS, max_live=1), words=True),
            Bfs(mc("b0 x0 u0 d0", "N", "box up mk mku tf pushbox pushcl swap clonefrom assign eqv hashv dbgv drop", vals=(0,), max_len=1, mk_lens=(0, 1), mk_hows=("list",), caps=VCAPS, max_live=2, wrong=True), binds=7),
            Bfs(mc("c0 e0", "C", "mk mku up undyn push clear get set rotl rotr into check checkr drop clone tovec tf resize fill cfs reserve hashv dbgv",
                   vals=(0, 1), max_len=2, mk_lens=(0, 2), mk_hows=("list",), caps=CAPS, max_live=1)),
            Bfs(mc("c0 e0 e1", "K", "mk mku up undyn tf append extend pushref collect swap clonefrom copyval eqv drop", vals=(0, 4), max_len=1 + more, mk_lens=(0, 1), mk_hows=("list",), caps=CAPS, max_live=2)),
            Bfs(mc("d0", "A N", "mk view vup sub", vals=(0, 1, 7), max_len=2, mk_lens=(0, 1, 2), mk_hows=("list",), max_view=2)),
            Bfs(mc("c0", "C K", "mk view vup sub", vals=(0, 1), max_len=2, mk_lens=(0, 1, 2), mk_hows=("list",), max_view=2)),
            Bfs(mc("t0", "A C", "tv view vup sub", vals=(0, 1), max_len=2, mk_lens=(0, 1, 2), mk_hows=("list",), max_view=2)),
            sim("mk mku tv box small boxof smallof down drop up undyn push pushbox pushcl clear get set rotl into checkr clone tovec resize fill eq eqv hashv dbgv tf swap assign clonefrom copyval pushref extend collect hash dbg append view sub vup"),
            sim("mku tv box small drop push pushbox pushcl clear get set eq eqv hash hashv dbg dbgv tf swap assign clonefrom clone append",
                slots="u0 u1 u2 u3 d0 b0 s0 t0 x0 y0", caps=("clone", "eq", "dyn"), num=30),
        ]
    if prop == "C16":
        use = "mk tv box small drop tf collect push pushref pushcl pushbox extend append clear set get into resize reserve"
        return [
            Bfs(mc("d0 d1", "A N", "mk tf push drop clear into set resize", vals=(0, 1), max_len=1 + more, mk_lens=(0, 1), mk_hows=("type", "list"))),
            Bfs(mc("c0 c1", "C K", "mk tf collect push pushref extend drop clear", vals=(0, 1), max_len=1 + more, mk_lens=(0, 1), mk_hows=("type", "list"))),
            Bfs(mc("e0 e1 u0", "C K", "mku tf collect push pushref extend drop clear", vals=(0,), max_len=1 + more, mk_lens=(0, 1), caps=("drop", "clone"), max_live=2)),
            Bfs(mc("d0 b0 s0 t0", "A", "box small tv tf drop push pushbox resize", vals=(0,), max_len=2, mk_lens=(0, 1), max_live=2), words=True),
            Bfs(mc("d0 c0 t0", "K C", "mk tv tf push resize drop", vals=(0,), max_len=2, mk_lens=(0, 1), mk_hows=("list",), max_live=2), binds=7),
            Bfs(mc("d0 d1 b0", "N", "mk box tf push pushbox resize drop", vals=(0,), max_len=2, mk_lens=(1,), mk_hows=("list",), max_live=2), binds=7),
            sim(use, wrong=True),
        ]
    raise KeyError(prop)
