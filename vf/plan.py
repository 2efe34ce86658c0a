"""Which parts of the specification decide which property, and what observations concern it."""

# Observations (aspects) of a replayed behaviour:
#   res:OP:HOW  the answer of an operation; HOW: lost (a value should have been found), ghost (none
#               should have been found), wrong (another one)
#   given:OP:HOW what the closure of a compute operation was given
#   fresh, replaced, key, runs  Entry and CompResult, and how often closures ran
#   contains:HOW, iter:HOW, iter:twice   probes after every step
#   ec, ws      counters;  ev-*  notifications;  cb  calls to the Expiry;  time  the clock
#   policy, retained, leak, panic:OP
ANY = [r".*"]
PANIC = [r"panic:.*", "stuck"]
LOOK = [r"res:.*", r"given:.*", r"contains:.*", r"iter:.*"] + PANIC
GHOST = [r"(res:.*|given:.*|contains|iter):ghost"] + PANIC
LOST = [r"(res:.*|given:.*|contains|iter):lost"] + PANIC
WRONG = [r"(res:.*|given:.*|contains|iter):wrong"]
EV = [r"ev-.*"] + PANIC
COUNT = ["ec", "ws"] + PANIC
ENTRY = [r"(res|fresh|replaced|key|given|runs):(gw|gwif|ogw|tgw|oi|cmp|tcmp|ups)(:.*)?",
         r"panic:(gw|gwif|ogw|tgw|oi|cmp|tcmp|ups)"]


def sim(profile, aspects, quick=160, thorough=4000, **kw):
    return dict(kind="sim", profile=profile, aspects=aspects, n=(quick, thorough), **kw)


def bulk(profile, aspects, quick=64, thorough=2000, **kw):
    """Caches with many entries (MokaBulk)."""
    return dict(kind="sim", module="MokaBulk", cmd="bulk", profile=profile, consts=dict(Profile=profile), aspects=aspects,
                n=(quick, thorough), depth=24, chunk=32, **kw)


LIN = [r"lin:(?!stale|late|pinned).*"]      # (the flags concern the properties of the recorded findings)
BLOCKED = ["deadlock", "stuck"]
FILL = [r"fill:.*"]                         # (what became of the other keys of a program with fillers)


# programs, schedules, histories per outcome, ... of programs with fillers
FILLS = ((1, 96, 36, 2, 2000), (4, 200, 200, 3, 6000))
FULL = ((1, 64, 96, 2, 2000), (4, 160, 400, 3, 6000))


def conc(profile, aspects, **kw):
    return dict(kind="conc", profile=profile, aspects=aspects, **kw)


BASEC = dict(Weights={0, 2, 4}, Classes={1}, Colours={0}, Steps={1, 20}, Keys={1, 2})


def mcs(name, cfgs, ops, maxops, **kw):
    c = dict(BASEC)
    c.update(kw)
    c.update(MCfgs=set(cfgs), OpKinds=set(ops), MaxOps=maxops)
    return dict(kind="mc", module="MC_Seq", name=name, consts=c)


MC_LRU = mcs("lru", ["lru1", "lru2w"], ["ins", "get", "rem", "sync"], (4, 6))
MC_LFU = mcs("lfu", ["lfu2w", "zero"], ["ins", "get", "rem", "sync"], (4, 6))
MC_TTL = mcs("ttl", ["ttl", "ttltti"], ["ins", "get", "rem", "sync", "adv"], (4, 6), Weights={1}, Steps={1, 2})
MC_EXP = mcs("exp", ["exp", "expttl"], ["ins", "get", "sync", "adv"], (4, 5), Weights={1}, Classes={1, 2, 3, 5}, Steps={1, 2, 16})
MC_INV = mcs("inval", ["inval", "invalttl"], ["ins", "get", "ia", "iif", "sync"], (4, 5), Weights={1}, Colours={0, 1})
MC_ENT = mcs("entry", ["ttl", "inval", "lru1"], ["ins", "gw", "gwif", "tgw", "cmp", "sync", "adv"], (3, 4), Weights={1}, Colours={0, 1}, Steps={3})
MC_SEG = mcs("seg", ["seg2"], ["ins", "get", "rem", "sync", "ia", "cmp"], (4, 5), Weights={1})

PLAN = {
    "C01": [MC_ENT, sim("basic", LOOK), sim("entry", LOOK), sim("invif", WRONG + GHOST), sim("events", LOOK), sim("seg", WRONG, 80),
            conc("basic", LIN), conc("many", LIN)],
    "C02": [MC_LRU, sim("basic", LOST), sim("cap", LOST + ["ev-extra"]), sim("expmix", LOST), sim("lfu", LOST + ["ev-extra"]),
            sim("invif", LOST), sim("lruw", LOST + ["ev-extra"]),
            conc("cap", LIN)],
    "C03": [MC_LRU, MC_LFU, sim("cap", COUNT + [r"contains:.*", "ev-.*", "retained"]), sim("lruw", COUNT + [r"contains:.*", "ev-missing", "retained"]),
            sim("lfuw", COUNT + [r"contains:.*", "ev-missing", "retained"]),
            conc("cap", [r"lin:f:.*(cap|ws|ec|live).*"])],
    "C04": [MC_LRU, sim("cap", COUNT), sim("events", COUNT), sim("expmix", COUNT), sim("seg", COUNT), sim("basic", COUNT),
            conc("cap", [r"lin:f:.*(ec|ws).*"]), conc("many", [r"lin:f:.*(ec|ws).*"]),
            bulk("grow", COUNT), bulk("ttl", COUNT), bulk("ia", COUNT)],
    "C05": [MC_TTL, sim("ttl", LOOK + ["ev-.*", "cb"]), sim("ttltti", LOOK + ["ev-.*"]),
            conc("ttl", LIN + ["lin:stale"]),
            bulk("ttl", LOOK + EV)],
    "C06": [MC_TTL, sim("tti", LOOK + ["ev-.*", "cb"]), sim("ttltti", LOOK + ["ev-.*"]), sim("probe", LOOK),
            conc("ttl", LIN + ["lin:stale"]),
            bulk("tti", LOOK + EV)],
    "C07": [MC_EXP, sim("exp", LOOK + ["cb", "ev-.*"]), sim("expmix", LOOK + ["cb", "ev-.*"]),
            conc("exp", LIN + ["lin:late"]),
            bulk("exp", LOOK + EV)],
    "C08": [MC_EXP, MC_TTL, sim("timer", EV + COUNT + ["retained"] + LOST, 80, 2000), sim("timers", EV + COUNT + ["retained"] + LOST),
            sim("ttltti", EV + COUNT + ["retained"]), sim("expmix", EV + COUNT + ["retained"]),
            bulk("ttl", EV + COUNT + ["retained"]), bulk("tti", EV + COUNT + ["retained"]), bulk("exp", EV + COUNT + ["retained"])],
    "C09": [MC_INV, sim("invall", LOOK + EV + COUNT + ["retained"], 480),
            conc("inval", LIN + ["lin:stale", "lin:pinned"]),
            bulk("ia", LOOK + EV + COUNT + ["retained"])],
    "C10": [MC_INV, sim("invif", LOOK + EV + COUNT + ["retained", "res:iif.*"], 480),
            conc("invif", LIN + ["lin:stale"]),
            bulk("iif", LOOK + EV + COUNT + ["retained"])],
    "C11": [MC_LRU, sim("events", EV), sim("cap", EV), sim("expmix", EV), sim("invif", EV), sim("basic", EV),
            conc("cap", LIN), conc("many", LIN),
            bulk("par", EV), bulk("lru", EV), bulk("ttl", EV)],
    "C12": [MC_TTL, sim("events", ["ev-cause", "ev-extra", "ev-missing"]), sim("ttltti", ["ev-cause"]), sim("invall", ["ev-cause"]), sim("expmix", ["ev-cause"]),
            conc("ttl", [r"lin:(n|f:.*ev).*"]), conc("inval", [r"lin:(n|f:.*ev).*"])],
    "C13": [sim("events", EV), sim("lru", ["ev-order"]), sim("expmix", ["ev-order"]),
            conc("basic", LIN), conc("comp", LIN)],
    "C14": [MC_LRU, sim("events", ANY, 240, modes=[["--listener-panics"]]), sim("expmix", ANY, 120, modes=[["--listener-panics"]])],
    "C15": [MC_ENT, sim("entry", ENTRY, 480),
            conc("getw", LIN + BLOCKED)],
    "C16": [MC_ENT, sim("entry", ENTRY + LOOK, 480),
            conc("getw", LIN + BLOCKED)],
    "C17": [MC_ENT, sim("entry", [r"(res|given):(cmp|tcmp|ups).*", r"panic:.*", "contains:.*", "iter:.*"], 480),
            conc("comp", LIN + BLOCKED)],
    "C18": [MC_ENT, sim("entry", ENTRY, 480), sim("expmix", ENTRY), sim("seg", ENTRY, 80),
            conc("comp", LIN), conc("getw", LIN)],
    "C19": [MC_LRU, sim("lru", LOOK + EV + COUNT, 320), sim("lruw", LOOK + EV + COUNT, 320),
            bulk("lru", LOOK + EV + COUNT)],
    "C20": [MC_LFU, sim("lfu", LOOK + EV + COUNT, 320), sim("lfuw", LOOK + EV + COUNT, 320),
            sim("hot", LOOK + EV + COUNT, 160, 3000, depth=24)],
    "C21": [MC_ENT, sim("events", [r"iter:.*", "probe-.*"] + PANIC), sim("seg", [r"iter:.*", "probe-.*"] + PANIC), sim("invif", [r"iter:.*"]),
            conc("iter", LIN + BLOCKED), conc("fill", LIN + ["fill:twice", "fill:lost"], size=FILLS),
            bulk("par", [r"iter:.*"] + PANIC, 128), bulk("grow", [r"iter:.*"] + PANIC)],
    "C22": [MC_SEG, sim("seg", ANY, 480),
            conc("seg", LIN + BLOCKED),
            bulk("ia", ANY)],
    "C23": [mcs("settings", ["lru1", "lfu2w", "zero", "ttl", "ttltti", "exp", "inval"], ["ins", "sync", "adv", "iif"], (3, 4), Weights={1}),
            sim("cap", ANY), sim("expmix", ANY), sim("seg", ANY, 80)],
    "C24": [MC_ENT,
            conc("cancel", [".*"]), conc("fillcancel", [".*"], size=FILLS)],
    "C25": [MC_LRU, sim("auto", [r"panic:.*"], depth=200),
            conc("full", BLOCKED + FILL + LIN, size=FULL), conc("fill", BLOCKED, size=FILLS), conc("fillcap", BLOCKED, size=FILLS),
            conc("many", BLOCKED), conc("cap", BLOCKED), conc("getw", BLOCKED), conc("mix", BLOCKED),
            bulk("par", PANIC), bulk("grow", PANIC)],
    "C26": [MC_LRU, sim("events", ["retained", "leak"] + PANIC), sim("seg", ["retained", "leak"], 80), sim("expmix", ["retained", "leak"]), sim("entry", ["retained", "leak"]),
            conc("mix", ["retained", "leak"]), conc("basic", ["retained", "leak"]), conc("cancel", ["retained", "leak"]),
            bulk("par", ["retained", "leak"]), bulk("grow", ["retained", "leak"]), bulk("lru", ["retained", "leak"])],
    "C27": [MC_LRU, sim("timer", LOOK + EV, 80, 2000), sim("wear", ANY, 20, 240, depth=24, chunk=10), sim("wearcap", ANY, 20, 240, depth=24, chunk=10),
            sim("hot", ANY, 160, 3000, depth=24)],
    "C28": [MC_LRU, sim("basic", LOOK, 320),
            conc("many", LIN), conc("fill", LIN + FILL, size=FILLS), conc("fillcap", LIN + FILL, size=FILLS),
            bulk("grow", LOOK + COUNT, 128), bulk("par", LOOK + COUNT, 128)],
    "C29": [MC_TTL, sim("probe", ANY, 480, probe=True), sim("events", ["probe-.*"])],
    "C30": [MC_LRU, sim("auto", COUNT + EV + LOOK, 60, 1500, depth=260, chunk=8), sim("autoburst", COUNT + EV + LOOK, 40, 800, depth=300, chunk=6)],
}

# (technique, level_note) where they differ from the common ones
NOTES = {}
NOT_APPLICABLE = []
HOOKS = None
