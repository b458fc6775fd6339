"""Which engines decide which property, with fixed case counts per tier (the caps are watchdogs)."""


def st(engine, n, **kw):
    return dict(engine=engine, n=n, **kw)


E2E = "mix"
PLAN = {}


def plan(prop, quick, thorough=None):
    if thorough is None:
        thorough = [dict(s, n=s["n"] * 8, cap=s.get("cap", 60) * 6) for s in quick]
    PLAN[prop] = {"quick": quick, "thorough": thorough}


plan("C01", [st("mix,details", 10)])
plan("C02", [st("conn", 20, workers=8), st("conns,mix", 10)])
plan("C03", [st("ops", 1, workers=8), st("mix,unread", 9)])
plan("C04", [st("mix,bump,unread", 10)])
plan("C05", [st("timeline,mix", 10)])
plan("C06", [st("mix,details", 10)])
plan("C07", [st("overlap", 8)])
plan("C08", [st("faults,crash,crashfault,faultsbad", 12)])
plan("C09", [st("e2ee,mix", 10)])
plan("C10", [st("e2ee,mix", 10)])
plan("C11", [st("restart", 12)])
plan("C12", [st("receipts,mix", 10)])
plan("C13", [st("acct,mix", 10)])
plan("C14", [st("unread,mix,invites", 12)])
plan("C16", [st("pollers,pollers2,pollersdown", 4, workers=30, cap=120)])
plan("C17", [st("pollers,pollers2", 4, workers=30, cap=120)])
plan("C18", [st("mix,bump", 10)])
plan("C19", [st("details,mix,crowd", 10)])
plan("C21", [st("lazy", 10)])
plan("C22", [st("redact,ignore", 10)])
plan("C15", [st("txn,txnlong", 8, workers=30, cap=120)])
plan("C23", [st("connmap", 12, workers=8), st("slow3,slow8,slow25", 6, workers=24, cap=120), st("gapsreset", 4)])
plan("C20", [st("swarm,swarmsmall", 6, workers=6, race=True, cap=120), st("mix,conns,slow8,txn,unread,typing,e2ee,restart", 2, workers=14, race=True, cap=120)])
plan("C24", [st("gaps,gaps1", 10)])
plan("C25", [st("hostile", 5, workers=30, cap=120)])
plan("C26", [st("typing,mix", 10), st("pollers2", 2, workers=24, cap=120)])
plan("C27", [st("upgrade", 12)])
plan("C28", [st("scope", 5)])

LEVEL = {}
RULE = {"": "Seeded random histories (rooms, memberships, events, account data, receipts, to-device, client requests) against the real proxy process, Postgres and a model homeserver; "
        "distinct_nontrivial counts distinct observed (monitor, shape) signatures: timeline/list/room states compared with the ground truth, empty ones excluded."}
ASSUME = ["the model homeserver follows the client-server API's sync v2 semantics with shared history visibility",
          "quiescence is judged by every poller waiting at the newest stream position and two empty client responses in a row"]
TECH = {"": "runtime monitoring: online trace monitors and quiescence oracles (client view vs model homeserver) over the real proxy process under seeded hostile workloads"}
NOTE = {"": "Held on the executions produced: seeded random histories with concurrent pollers, retries and parameter churn; no claim beyond the histories run."}
NA = {}
