"""What the check of every property runs.

parts: scenarios with the number of cases per tier; mc: (spec, quick config,
thorough config) model checked exhaustively."""
ST = ("SpaceStore", "SpaceStore_mc.cfg")
SR = ("SpaceStore", "SpaceStore_refs.cfg", "SpaceStore_refsx.cfg")
TV = "TLA+ model checking (TLC) and validation of traces of the real code against the specification"


def rnd(name, quick, thorough, **k):
  return dict(scenario="store." + name, quick=quick, thorough=thorough, **k)


def plan(parts, mc=(ST,), technique=TV, note="", **k):
  return dict(parts=parts, mc=list(mc), technique=technique, note=note, **k)


H = ("SpaceStore.tla is model checked exhaustively within small constants; every recorded event of randomly "
     "generated histories of the real code (fixed by VERIF_SEED) must be a step of SpaceOps.tla with exactly the "
     "rows, references, change log and outcome the specification computes. Trusts the harness' value codec and TLC. ")

CR = ("A real process is killed, or a system call made to fail, at every kind of file system step (open, write - also "
      "partly -, rename, mkdir, unlink) of a data, reference or create operation; a fresh process observes the result "
      "and the trace must be allowed by the specification, in which the operation is atomic. Steps are sampled in the "
      "quick tier. The preload shim sees libc calls of Python, Arrow and ArrayRecord; loss of unsynced page cache "
      "(power failure) is not modelled. ")

HC = ("Catalog.tla is model checked exhaustively for two catalogs and two names; random histories over real catalogs "
      "(creations, views, writes, refreshes through a single-process Ray stand-in, listings, foreign files) must be "
      "steps of it, with the contents of every entry, opened by a new catalog object, compared after every step. ")

SC = ("Schema.tla (type grammar, validation, field numbers, storage encoding) is model checked for all small definitions; "
      "each of them is replayed into Dataset.create and load, as are random deep definitions, and every outcome, loaded "
      "schema, stored encoding and written row must be the one the specification gives. ")

RY = ("A single-process stand-in for Ray runs the remote tasks, in submission order or in a random one; the Ray runner's code is "
      "the real one. Random histories mix local and distributed operations with random parallelism, block modes and "
      "batch sizes; every event must be a step of SpaceOps.tla. A case that fails is repeated with the local runner: what fails "
      "there as well is not attributed to the distributed runner. ")

JN = ("Join.tla (inner join by the definition; partitioned evaluation with range filters from statistics) is model checked for "
      "all small inputs; joins of random datasets, versions and views on random keys with random partitions, run by the "
      "Ray stand-in, must give exactly the rows of the specification. ")

VW = ("View.tla (chains of transforms, replay of the source's change log) is model checked: a materialized view equals the "
      "view of the source at every version. User functions are interpreters of generated expressions that the "
      "specification evaluates as well. Random source histories with branches, refreshes to random versions, failing user "
      "functions, overlapping refreshes, reloads and moves must be steps of it, run by the Ray stand-in. ")

SD = ("Serde.tla (bytes and values of fields with a specification, stored and read back) is model checked; datasets with random "
      "feature specifications and values, serializers of created and loaded datasets, appended and loaded files, reads and "
      "deserializing random access must be steps of it. Values are compared with what the features library itself gives. ")

PR = ("Prune.tla defines which files statistics allow to skip, with three valued logic, nulls and NaN; that definition and the "
      "design of the code are model checked for every small file and filter. Enumerated and random filters over real files of "
      "every key type must keep each file with a matching row and read exactly the matching rows. ")

OR = ("Commit.tla (the file system steps of committing processes that may die at any of them) is model checked; the recorded "
      "sequence of steps of operations must be allowed by Files.tla at every step: what the entry point names is complete "
      "when it is published and never touched again, so that every crash point of the operation is covered. ")

CO = ("Up to three real processes operate on one dataset; their file system steps are interleaved by a random scheduler or by "
      "behaviours that TLC generates from SpaceStore.tla, and processes are killed. Every operation must take effect at one "
      "moment within its interval or not at all, and a transaction only if the head is the one it began with. Not interleaved: "
      "the steps between a writer's last look at the head and its replacement of the entry point (known finding conc.window). ")


def conc(name, quick, thorough, **k):
  return dict(scenario="conc." + name, quick=quick, thorough=thorough, **k)


PLANS = {
    "C01": plan([rnd("append", 400, 6000)], note=H),
    "C02": plan([rnd("delete", 400, 6000)], note=H),
    "C03": plan([rnd("keys", 400, 6000)], note=H),
    "C04": plan([rnd("old", 300, 6000), rnd("long", 24, 400, owner=["C04"])], mc=(ST, SR), note=H),
    "C05": plan([rnd("branches", 320, 6000), conc("refs", 80, 2000)], mc=(ST, SR), note=H + CO),
    "C06": plan([rnd("refs", 320, 6000), conc("refs", 80, 2000)], mc=(ST, SR), note=H + CO),
    "C07": plan([rnd("txn", 240, 6000), conc("writers", 120, 3000), conc("mbt", 40, 800), conc("window", 2, 2, owner=["C07"])], mc=(ST, SR), note=H + CO),
    "C08": plan([dict(scenario="crash.data", quick=96, thorough=600, owner=["C08"]),
                 conc("crash", 48, 800),
                 dict(scenario="crash.ref", quick=48, thorough=400, owner=["C08"]),
                 dict(scenario="crash.read", quick=32, thorough=200, owner=["C08"]),
                 dict(scenario="crash.create", quick=16, thorough=60, owner=["C08"]),
                 dict(scenario="order.steps", quick=120, thorough=3000, owner=["C08"], spec="TraceFiles")],
                mc=(ST, SR, ("Commit", "Commit.cfg", "Commitx.cfg")), note=CR + OR + CO),
    "C09": plan([rnd("diff", 400, 6000)], note=H),
    "C10": plan([rnd("filter", 320, 6000),
                 dict(scenario="prune.enum", quick=64, thorough=1500, owner=["C10"], spec="TracePrune")],
                mc=(ST, ("Prune_mc", "Prune_mc.cfg", "Prune_mcx.cfg")), note=H + PR),
    "C11": plan([rnd("project", 400, 6000)], note=H),
    "C12": plan([rnd("layout", 400, 6000)], note=H),
    "C13": plan([rnd("reject", 400, 6000)], mc=(ST, SR), note=H),
    "C14": plan([rnd("inflight", 280, 6000), conc("readers", 120, 3000)], note=H + CO),
    "C15": plan([dict(scenario="load.parquet", quick=200, thorough=3000, owner=["C15"]),
                 dict(scenario="load.array_record", quick=160, thorough=2000, owner=["C15"])], note=H),
    "C16": plan([dict(scenario="move.random", quick=104, thorough=2000, owner=["C16"])], note=H),
    "C17": plan([dict(scenario="schema.enum", quick=120, thorough=328, spec="TraceSchema", owner=["C17"]),
                 dict(scenario="schema.random", quick=640, thorough=8000, spec="TraceSchema", owner=["C17"])],
                mc=[("Schema_mc", "Schema_mc.cfg", "Schema_mcx.cfg")], note=SC),
    "C19": plan([dict(scenario="access.random", quick=200, thorough=3000, owner=["C19"]),
                 dict(scenario="access.runs", quick=256, thorough=2000, owner=["C19"]),
                 dict(scenario="access.feature", quick=40, thorough=400, owner=["C19"]),
                 dict(scenario="access.multi", quick=40, thorough=400, owner=["C19"])], note=H),
    "C18": plan([dict(scenario="catalog.random", quick=240, thorough=4000, owner=["C18"], ray=True, spec="TraceCatalog")],
                mc=[("Catalog_mc", "Catalog_mc.cfg")], note=HC),
    "C20": plan([dict(scenario="view.refresh", quick=240, thorough=3000, owner=["C20"], ray=True, spec="TraceView"),
                 dict(scenario="view.read", quick=160, thorough=2000, owner=["C20"], ray=True, spec="TraceView"),
                 dict(scenario="view.filter_fields", quick=2, thorough=3, owner=["C20"], ray=True, spec="TraceView")],
                mc=[("View_mc", "View_mc.cfg")], note=VW),
    "C21": plan([dict(scenario="ray." + x, quick=96, thorough=1500, owner=["C21"], ray=True)
                 for x in ("write", "delete", "read", "diff")], note=RY),
    "C22": plan([dict(scenario="join.random", quick=320, thorough=5000, owner=["C22"], ray=True, spec="TraceJoin"),
                 dict(scenario="join.refuse", quick=32, thorough=200, owner=["C22"], ray=True, spec="TraceJoin")],
                mc=[("Join_mc", "Join_mc.cfg", "Join_mcx.cfg")], note=JN),
    "C23": plan([dict(scenario="view.load", quick=320, thorough=4000, owner=["C23"], ray=True, spec="TraceView")],
                mc=[("View_mc", "View_mc.cfg")], note=VW),
    "C24": plan([dict(scenario="serde.random", quick=400, thorough=6000, owner=["C24"], spec="TraceSerde")],
                mc=[("Serde_mc", "Serde_mc.cfg")], note=SD),
}

NOT_APPLICABLE = {}
