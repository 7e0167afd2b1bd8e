"""What each check runs: design models (TLC), campaigns (real code) and their trace specifications."""

DETSCHED = ("schedules come from a deterministic scheduler that replaces threading primitives; preemption between any two bytecodes of "
            "uberjob's files in worker threads; C code (queue internals, dict operations) is atomic as under the GIL")
RUNP = dict(py="runplans", module="RunTrace.tla", cfg="RunTrace.cfg")


def engine(**over):
    o = {"N": "3", "Workers": "{1, 2}", "Errs": "ErrsAll", "Rs": "{1}", "WithLits": "FALSE", "Interrupts": "FALSE", "StartFails": "FALSE"}
    o.update(over)
    return dict(module="Engine.tla", cfg="Engine_quick.cfg", overrides={k: v for k, v in o.items()})


def broken(**over):
    d = engine(**over)
    return d


def P(models, campaigns, assumptions=(), **kw):
    return dict(models=models, campaigns=campaigns, assumptions=[DETSCHED, *assumptions], **kw)


EVALP = dict(py="evalplans", module="EvalTrace.tla", cfg="EvalTrace.cfg")
VALP = dict(py="valuestores", module="RegisterTrace.tla", cfg="RegisterTrace.cfg")
FSP = dict(py="filestores", module="FileStoreTrace.tla", cfg="FileStoreTrace.cfg", shim=True)
PROGP = dict(py="progressruns", module="ProgressTrace.tla", cfg="ProgressTrace.cfg")
DISP = dict(py="display", module="DisplayTrace.tla", cfg="DisplayTrace.cfg")
ISOP = dict(py="isolation", module="IsolationTrace.tla", cfg="IsolationTrace.cfg")
ATTP = dict(py="attribution", module="AttributionTrace.tla", cfg="AttributionTrace.cfg")
INSP = dict(py="instants", module="InstantsTrace.tla", cfg="InstantsTrace.cfg")
RELP = dict(py="release", module="ReleaseTrace.tla", cfg="ReleaseTrace.cfg")
REGP = dict(py="regplans", module="RegistryTrace.tla", cfg="RegistryTrace.cfg")


def history(n, sel, **over):
    o = {"N": str(n), "Sel": f'"{sel}"'}
    o.update(over)
    return dict(module="RegistryModel.tla", cfg="RegistryModel.cfg", overrides=o)


def regmodels():
    return [history(2, "all"), history(3, "dep"), dict(history(3, "lit"), thorough=True), dict(history(3, "src"), thorough=True)]


def hist(seconds, **params):
    return dict(REGP, fn="histories", params=params, seconds=seconds)


STORES = ("the stores of the campaigns are in-memory stores whose reads differ from what was written, or (in some campaigns) bundled and "
          "user-defined file stores in a scratch directory; modified times increase with every write, by steps of 1 us up to a day")

PROPERTIES = {
    "C01": P(
        [engine(N="3", Workers="{2}", Errs="ErrsOne", WithLits="TRUE"),
         dict(engine(N="4", Workers="{2, 3}", Errs="ErrsNone"), thorough=True)],
        [dict(RUNP, fn="random_runs", params={"n": 7}, seconds=15), dict(RUNP, fn="random_runs", params={"n": 8, "p_chain": 1.0}, seconds=8),
         dict(RUNP, fn="preempt_all", params={"variants": 1}, seconds=12), hist(8, p_cut=0.2)],
        broken=[broken(EnqueueOnFail="TRUE", Workers="{1}")],
    ),
    "C02": P(
        [dict(module="EvalModel.tla", cfg="EvalModel.cfg", export="PROGRAMS")],
        [dict(EVALP, fn="generated", seconds=40), dict(EVALP, fn="programs", params={"n": 6}, seconds=15, thorough_params={"n": 9, "runs": 3})],
        broken=[dict(module="EvalModel.tla", cfg="EvalModel.cfg", overrides={"BadDict": "TRUE"}),
                dict(module="EvalModel.tla", cfg="EvalModel.cfg", overrides={"BadConst": "TRUE"})],
    ),
    "C03": P(regmodels(), [hist(18, p_cut=0.4), hist(9, p_cut=0.1, n=5, steps=9, p_tr=0.1), hist(6, p_cut=0.4, p_file=0.7), hist(6, p_cut=0.3, p_cycle=0.2, steps=3)],
             broken=[history(2, "all", NoPropagate="TRUE"), history(2, "all", WriteDirect="TRUE")], assumptions=[STORES]),
    "C04": P(
        [engine(N="3", Workers="{1, 2}", Errs="ErrsOne", Rs="{1, 2}")],
        [dict(RUNP, fn="random_runs", params={"n": 7, "p_gate": 0.15}, seconds=15), dict(RUNP, fn="preempt_all", params={"variants": 2}, seconds=12),
         hist(6, p_cut=0.3)],
        broken=[broken(UseLock="FALSE", Workers="{2}")],
    ),
    "C05": P(regmodels(), [hist(24, p_cut=0.25), hist(5, p_cut=0.2, p_file=0.7)],
             broken=[history(2, "all", NoPropagate="TRUE"), history(2, "all", FreshSource="TRUE")], assumptions=[STORES]),
    "C06": P(
        [engine(N="3", Workers="{1, 2}", Errs="ErrsAll")],
        [dict(RUNP, fn="random_runs", params={"n": 6, "p_fail": 0.9, "p_gate": 0.2}, seconds=15),
         dict(RUNP, fn="preempt_all", params={"variants": 1}, seconds=12), hist(12, p_cut=0.8, p_kill=0)],
        broken=[broken(EnqueueOnFail="TRUE", Workers="{1}")],
    ),
    "C07": P(
        [engine(N="3", Workers="{1, 2}", Errs="ErrsOne", StartFails="TRUE")],
        [dict(RUNP, fn="random_runs", params={"n": 6, "p_fail": 0.6, "p_gate": 0.1, "p_cycle": 0.25, "p_start_fail": 0.1}, seconds=15),
         dict(RUNP, fn="preempt_all", params={"variants": 1}, seconds=12), hist(12, p_cut=0.5, p_kill=0, p_cycle=0.4, steps=3),
         dict(DISP, fn="runs", params={"slow": 30}, seconds=6)],
        broken=[broken(DoneOnStartup="FALSE", StartFails="TRUE", Workers="{2}")],
    ),
    "C08": P(regmodels(), [hist(10, p_cut=0.8), dict(REGP, fn="cut_everywhere", params={"n": 6}, seconds=14),
                           dict(hist(8, p_cut=0.8, p_file=0.7, shim=True), shim=True),
                           dict(REGP, fn="cut_files", params={"n": 5, "p_file": 0.9}, seconds=8, shim=True)],
             broken=[history(2, "all", NoPropagate="TRUE"), history(2, "all", DepAfterCall="TRUE")], assumptions=[STORES]),
    "C09": P(regmodels(), [hist(24, p_cut=0.3, p_gate=0.4), hist(5, p_cut=0.2, p_file=0.7)],
             broken=[history(2, "all", WriteDirect="TRUE"), history(2, "all", DepAfterCall="TRUE")], assumptions=[STORES]),
    "C10": P(
        [engine(N="3", Workers="{1, 2}", Errs="ErrsAll", Rs="{1, 2}")],
        [dict(RUNP, fn="random_runs", params={"n": 7, "p_fail": 0.5, "p_gate": 0.8, "p_storm": 0.3}, seconds=20), hist(12, p_cut=0.6, p_kill=0, p_gate=0.6)],
    ),
    "C11": dict(
        models=[dict(module="FileStoreModel.tla", cfg="FileStoreModel.cfg", thorough_overrides={"Values": "{1, 2, 3}", "Chunks": "4"}),
                dict(module="FileStoreModel.tla", cfg="FileStoreModel.cfg", overrides={"NoTruncate": "TRUE"}),
                dict(module="FileStoreModel.tla", cfg="FileStoreModel.cfg", overrides={"PreClean": "FALSE"})],
        campaigns=[dict(FSP, fn="everywhere", seconds=30), dict(FSP, fn="sequences", seconds=12)],
        assumptions=["faults are injected at the libc file operations that a preloaded shim sees (open, write, close, rename, link, unlink, "
                     "truncate, mkdir, rmdir, ...) and process death is an immediate _exit before, in the middle of or after any of them; "
                     "loss of data that the kernel has accepted (power failure) is out of scope"],
        broken=[dict(module="FileStoreModel.tla", cfg="FileStoreModel.cfg", overrides={k: "TRUE"})
                for k in ("Direct", "RenameEarly", "NoCleanup")]
        + [dict(module="FileStoreModel.tla", cfg="FileStoreModel.cfg", overrides={"NoTruncate": "TRUE", "PreClean": "FALSE"})],
    ),
    "C12": dict(
        models=[dict(module="RegisterModel.tla", cfg="RegisterModel.cfg", export="VALUES", thorough_overrides={"MaxLen": "4"})],
        campaigns=[dict(VALP, fn="domain", seconds=20), dict(VALP, fn="histories", seconds=22)],
        assumptions=["values are sampled: all strings of up to 3 character classes and all JSON trees of the model (depth 2), random deeper "
                     "ones, and a fixed pool of picklable objects; equality is structural with exact types",
                     "modified times of files are moved with os.utime to simulate writes at chosen instants, in seven time zones"],
        broken=[dict(module="RegisterModel.tla", cfg="RegisterModel.cfg", overrides=dict({"MaxLen": "2"}, **o)) for o in
                ({"WriteNewline": '"none"'}, {"ReadNewline": '"none"'}, {"KeyLists": "TRUE"}, {"EagerCopy": "TRUE"}, {"CacheRead": "TRUE"},
                 {"NoneIsMissing": "TRUE"})],
    ),
    "C13": dict(
        models=[dict(module="IsolationModel.tla", cfg="IsolationModel.cfg")],
        campaigns=[dict(ISOP, fn="histories", seconds=30), dict(ISOP, fn="threads", seconds=12)],
        assumptions=["contents are compared after every operation and at randomly chosen calls of user code (functions, stores, observers, "
                     "transformations, predicates), not at every instant; the threads campaign compares after the threads have ended",
                     "the attributes of nodes, edges and registry entries are compared by object identity; mutation inside a value that the "
                     "user put into a literal is out of scope"],
        broken=[dict(module="IsolationModel.tla", cfg="IsolationModel.cfg", overrides={k: "TRUE"})
                for k in ("RunInPlace", "ShallowPlan", "ShallowEntries", "KeepScope")],
    ),
    "C14": P([history(2, "all")], [hist(28, p_cut=0.2, p_dry=0.6, p_tr=0.25)], assumptions=[STORES]),
    "C15": P(
        [dict(module="ProgressModel.tla", cfg="ProgressModel.cfg", thorough_overrides={"N": "4", "W": "3"})],
        [dict(PROGP, fn="runs", params={"n": 6}, seconds=14), dict(PROGP, fn="runs", params={"n": 4, "p_trace": 0.8, "p_cycle": 0.1}, seconds=8)],
        assumptions=["notifications are grouped by section, the scope set by the user and the last part of the function name, so the exact "
                     "form of function names in scopes is not prescribed",
                     "the number of calls that uberjob adds itself (gathers) is taken from the physical plan given to transform_physical"],
        broken=[dict(module="ProgressModel.tla", cfg="ProgressModel.cfg", overrides={k: "TRUE"})
                for k in ("TotalsLate", "SilentFailure", "ExitEarly", "FirstOnly", "PerAttempt", "OldTotals")],
    ),
    "C16": P(
        [dict(module="ReleaseModel.tla", cfg="ReleaseModel.cfg"),
         dict(module="ReleaseModel.tla", cfg="ReleaseModel.cfg", overrides={"N": "4"}, thorough=True)],
        [dict(RELP, fn="runs", seconds=18), dict(RELP, fn="runs", params={"n": 9, "p_big": 0.5, "p_fail": 0.8}, seconds=12)],
        assumptions=["liveness is judged, after a garbage collection, whenever every worker is blocked at the start of a call of the physical "
                     "plan or idle, not in the middle of uberjob's own steps",
                     "results that the traceback of the first error refers to (the arguments of the failed call) may stay alive",
                     "calls are observed by wrapping them in transform_physical; runs use progress=None, since displays keep the tracebacks "
                     "of failed calls to render them"],
        broken=[dict(module="ReleaseModel.tla", cfg="ReleaseModel.cfg", overrides=o) for o in
                ({"KeepRecord": "TRUE"}, {"KeepTable": "TRUE"}, {"KeepLast": "TRUE"}, {"DropEarly": "TRUE"}, {"KeepFailed": "TRUE", "N": "4"})],
    ),
    "C17": P(
        [engine(N="3", Workers="{1, 2}", Errs="ErrsOne", Interrupts="TRUE")],
        [dict(RUNP, fn="random_runs", params={"n": 6, "p_fail": 0.3, "p_intr": 1.0, "p_start_intr": 0.4}, seconds=20),
         hist(12, p_cut=0.9, p_intr=0.8), dict(DISP, fn="runs", params={"p_intr": 0.7, "slow": 30}, seconds=8)],
        broken=[broken(DoneOnStartup="FALSE", Interrupts="TRUE", Workers="{2}")],
    ),
    "C18": dict(
        models=[dict(module="InstantsModel.tla", cfg="InstantsModel.cfg", export="INSTANTS")],
        campaigns=[dict(INSP, fn="pairs", seconds=8), dict(INSP, fn="plans", seconds=8), dict(INSP, fn="plans", params={"files": True, "n": 4}, seconds=8)],
        assumptions=["zones: nine fixed and daylight-saving zones (among them one with a half-hour shift and one that skipped a day), "
                     "set through TZ as POSIX rules and, where the tz database is installed, by name; instants around their transitions in "
                     "2021 (2011 for the skipped day)",
                     "datetimes outside the range that can be converted to UTC (near datetime.min and datetime.max) are not generated"],
        broken=[dict(module="InstantsModel.tla", cfg="InstantsModel.cfg", overrides={k: "TRUE"}) for k in ("NaiveAsUtc", "IgnoreFold", "WallClock")],
    ),
    "C20": dict(
        models=[dict(module="DisplayModel.tla", cfg="DisplayModel.cfg", thorough_overrides={"Horizon": "5"})],
        campaigns=[dict(DISP, fn="notifications", seconds=14), dict(DISP, fn="runs", seconds=12)],
        assumptions=["displays are driven through their public form (console_progress, html_progress, ipython_progress) with a virtual clock; what "
                     "they show is read from standard output, the HTML and the IPython widgets",
                     "a row shows whole seconds, so elapsed times are compared up to one second per row; calls last multiples of up to 60 s"],
        broken=[dict(module="DisplayModel.tla", cfg="DisplayModel.cfg", overrides={k: "TRUE"})
                for k in ("NoFinal", "StaleAtOutput", "NoStale", "SortRaises", "NotSplit")]
        + [dict(module="DisplayModel.tla", cfg="DisplayModel.cfg", overrides={"LateElapsed": "TRUE", "Horizon": "4"})],
    ),
    "C19": dict(
        models=[dict(module="AttributionModel.tla", cfg="AttributionModel.cfg", thorough_overrides={"Depth": "6"})],
        campaigns=[dict(ATTP, fn="scripts", seconds=30)],
        assumptions=["the user's stack at every use of the API is taken from the interpreter (a profile function that sees uberjob's functions "
                     "entered from the scripts); scripts run in threads of their own, so that the outermost frame is the script's"],
        broken=[dict(module="AttributionModel.tla", cfg="AttributionModel.cfg", overrides={k: "TRUE"})
                for k in ("OffByOne", "NoMark", "StoreOfNode", "CopyLoses", "Unreversed")]
        + [dict(module="AttributionModel.tla", cfg="AttributionModel.cfg", overrides={"WrongSkip": "TRUE", "GatherInner": "TRUE"})],
    ),
}

NOTE = ("The design is explored exhaustively within small constants; the code is bound to it by TLC validating recorded executions "
        "(thousands of generated scenarios and schedules per run), so a violation that no explored execution exhibits is missed. "
        "Trusts TLC, the trace recorder and the deterministic scheduler.")
