"""Runs under many time zones and representations of the same instants, recorded for Instants.tla."""
import datetime as dt
import hashlib
import itertools
import json
import os
import pickle
import random
import shutil
import tempfile
import time
import zoneinfo

import uberjob
from uberjob.stores import BinaryFileStore, JsonFileStore, MountedStore, PathSource, PickleFileStore, TextFileStore, TouchFileStore


def sub(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:8], "big")


TZ = {
    "UTC": ["UTC", "UTC0", ""], "Kathmandu": ["<+0545>-5:45", "Asia/Kathmandu"], "Kiritimati": ["<+14>-14", "Pacific/Kiritimati"],
    "West": ["<-12>12", "Etc/GMT+12"], "NewYork": ["EST5EDT,M3.2.0,M11.1.0", "America/New_York"],
    "London": ["GMT0BST,M3.5.0/1,M10.5.0", "Europe/London"], "Sydney": ["AEST-10AEDT,M10.1.0,M4.1.0/3", "Australia/Sydney"],
    "LordHowe": ["<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "Australia/Lord_Howe"], "Apia": ["Pacific/Apia"],
}
NAMED = {z: v[-1] or "UTC" for z, v in TZ.items()}
NAMED["UTC"] = "UTC"
ERA = {2011: ["Apia", "UTC", "Kathmandu", "Kiritimati", "West"], 2021: [z for z in TZ if z != "Apia"]}
EPOCH = dt.datetime(1970, 1, 1)
UTC = dt.timezone.utc


def have(name):
    try:
        return zoneinfo.ZoneInfo(name)
    except Exception:
        return None


def set_tz(r, z):
    names = [x for x in TZ[z] if "/" not in x or have(x)]
    if not names:
        return False
    os.environ["TZ"] = r.choice(names)
    time.tzset()
    return True


def secs(d):
    return int((d.replace(tzinfo=None, microsecond=0) - EPOCH).total_seconds())


class Sub(dt.datetime):
    """User code may return instances of subclasses."""


def represent(r, inst, forms, era):
    """A datetime that denotes inst = (seconds, microseconds) under the process's zone, and its description."""
    if inst is None:
        return None, dict(k="none")
    form = r.choice(forms)
    s, us = inst
    at = (EPOCH + dt.timedelta(seconds=s, microseconds=us)).replace(tzinfo=UTC)
    if form == "zone":
        zones = [z for z in ERA[era] if have(NAMED[z])]
        if zones:
            z = r.choice(zones)
            d = at.astimezone(zoneinfo.ZoneInfo(NAMED[z]))
            return d, dict(k="zone", z=z, loc=secs(d), fold=d.fold, us=us)
        form = "off"
    if form == "off":
        off = r.choice([0, 0, 3600, -3600, -18000, 19800, 20700, 50400, -43200, 1, -86340, 86340])
        d = at.astimezone(dt.timezone(dt.timedelta(seconds=off)) if off else UTC)
        return d, dict(k="off", loc=secs(d), off=off, us=us)
    d = dt.datetime.fromtimestamp(s).replace(microsecond=us)  # naive local time, with the fold that tells repeated times apart
    if d.fold == 0 and r.random() < 0.2 and dt.datetime.fromtimestamp(s).replace(fold=1).timestamp() == s:
        d = d.replace(fold=1)  # means nothing here
    if r.random() < 0.1:
        d = Sub(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, fold=d.fold)
    return d, dict(k="naive", loc=secs(d), fold=d.fold, us=us)


class Memory(uberjob.ValueStore):
    def __init__(self, k, log):
        self.k, self.log, self.value, self.time = k, log, 1, None

    def read(self):
        return self.value

    def write(self, value):
        self.log.append(self.k)

    def get_modified_time(self):
        return self.time


def logged(cls, log, k):
    class Logged(cls):
        def write(self, value):
            log.append(k)
            super().write(value)

    return Logged


class Copied(MountedStore):
    def __init__(self, directory, k, log):
        super().__init__(lambda path: PickleFileStore(path))
        self.remote = os.path.join(directory, f"remote{k}")

    def copy_from_local(self, local):
        os.replace(local, self.remote)

    def copy_to_local(self, local):
        with open(self.remote, "rb") as f, open(local, "wb") as g:
            g.write(f.read())

    def get_modified_time(self):
        return PickleFileStore(self.remote).get_modified_time()


class World:
    """One plan; its stores' times are set before every run."""

    def __init__(self, r, p, files=None):
        self.r, self.p, self.log = r, p, []
        self.plan, self.registry, self.stores = uberjob.Plan(), uberjob.Registry(), {}
        self.files = files
        nodes = {}
        for i in range(1, p["n"] + 1):
            args = [nodes[a["q"][0]] if a["s"] == "n" else [nodes[q] for q in a["q"]] for a in p["args"][i - 1]]
            kind = p["kind"][i - 1]
            if kind == "src":
                nodes[i] = self.registry.source(self.plan, self.make(i, True))
            elif kind == "lit":
                nodes[i] = self.plan.lit(self.value(i))
            else:
                nodes[i] = self.plan.call(lambda *a, i=i: self.value(i), *args)
            for d in p["deps"][i - 1]:
                self.plan.add_dependency(nodes[d], nodes[i])
            if p["reg"][i - 1] and kind != "src":
                self.registry.add(nodes[i], self.make(i, False))
        self.nodes = nodes

    def value(self, i):
        cls = getattr(self, "cls", {}).get(i)
        return {TouchFileStore: None, BinaryFileStore: b"v"}.get(cls, "v")

    def make(self, i, source):
        if self.files is None:
            s = Memory(i, self.log)
        elif self.r.random() < 0.15 and not source:
            s = logged(Copied, self.log, i)(self.files, i, self.log)
            s.path = s.remote
        else:
            cls = self.r.choice([JsonFileStore, TextFileStore, PickleFileStore, BinaryFileStore, TouchFileStore])
            if self.p["kind"][i - 1] == "lit":
                cls = JsonFileStore
            path = os.path.join(self.files, f"s{i}")
            if source and self.r.random() < 0.4:
                s = PathSource(path, required=True)
            else:
                self.__dict__.setdefault("cls", {})[i] = cls
                s = logged(cls, self.log, i)(path)
        self.stores[i] = s
        return s

    def set_time(self, i, inst, form, era):
        if self.files is None:
            self.stores[i].time, d = represent(self.r, inst, form, era)
            return d
        path = self.stores[i].path
        if inst is None:
            if os.path.exists(path):
                os.remove(path)
            return dict(k="none")
        with open(path, "wb") as f:
            cls = self.cls.get(i) if hasattr(self, "cls") else None
            if cls is JsonFileStore:
                f.write(b'"v"')
            elif cls is TextFileStore or cls is BinaryFileStore:
                f.write(b"v")
            elif cls is TouchFileStore:
                pass
            else:
                f.write(pickle.dumps("v"))
        ns = inst[0] * 10**9 + inst[1] * 1000
        os.utime(path, ns=(ns, ns))
        # what the store should report, by the specification of the file stores: naive local time
        return represent_file(inst)

    def run(self, tz, inst, finst, forms, fforms, era):
        r = self.r
        times = []
        for i in range(1, self.p["n"] + 1):
            times.append(self.set_time(i, inst[i - 1], forms[i - 1], era) if self.p["reg"][i - 1] else dict(k="none"))
        fresh, fd = represent(r, finst, fforms, era)
        del self.log[:]
        ev = dict(e="ran", tz=tz, times=times, fresh=fd, ok=True, wrote=[])
        out = None if r.random() < 0.5 else [self.nodes[k] for k in self.nodes if r.random() < 0.4]
        try:
            uberjob.run(self.plan, registry=self.registry, output=out, fresh_time=fresh, progress=None, max_workers=r.choice([1, 1, 2]))
        except Exception as exc:
            ev.update(ok=False, why=repr(exc.__cause__ or exc)[:200])
        ev["wrote"] = sorted(self.log)
        return ev


def represent_file(inst):
    d = dt.datetime.fromtimestamp(inst[0])
    return dict(k="naive", loc=secs(d), fold=d.fold, us=inst[1])


def times_of(inst):
    return [list(x) if x else [0, 0] for x in inst]


FORMS = [["naive"], ["off"], ["zone"], ["naive", "off"], ["naive", "zone"], ["naive", "off", "zone"]]


def pairs(params, seed, shard, nshards):
    """Every pair of instants that the model enumerates, in all combinations of representations."""
    with open(os.environ["INSTANTS"]) as f:
        work = json.loads(f.readline())
    work.sort(key=lambda x: (x["tz"], x["up"], x["down"]))
    random.Random(sub(seed, "instants")).shuffle(work)
    for k in itertools.count(shard, nshards):
        yield pair_one(work[k % len(work)], sub(seed, "pair", k))


PAIR = dict(n=2, kind=["src", "call"], args=[[], [dict(s="n", q=[1])]], deps=[[], []], reg=[True, True], side=[0, 0])


def pair_one(case, s):
    r = random.Random(s)
    z, up, down = case["tz"], (case["up"], 0), (case["down"], 0)
    era = 2011 if z == "Apia" else 2021
    finst = r.choice([None, (case["up"] + r.choice([-60, 1, 0, 60]), r.choice([0, 0, 5])), (case["down"] + r.choice([0, 1, -1]), 0)])
    us = r.choice([0, 0, 1, 999999])
    down = (down[0], us)
    t = []
    w = World(r, PAIR)
    for a, b in itertools.product(["naive", "off", "zone"], repeat=2):
        if set_tz(r, z):
            t.append(w.run(z, (up, down), finst, [[a], [b]], FORMS[-1], era))
    return {"p": dict(PAIR, inst=times_of([up, down]), finst=list(finst or (0, 0))), "t": t, "replay": ["instants", "pair_one", case, s], "count": {"decisions": len(t)}}


def gen_plan(r, n):
    p = dict(n=n, kind=[], args=[], deps=[], reg=[], side=[0] * n)
    for i in range(1, n + 1):
        kind = r.choice(["call", "call", "call", "src", "lit"])
        prev = list(range(1, i))
        args, deps = [], []
        if kind == "call" and prev:
            for _ in range(r.choice([0, 1, 1, 2])):
                args.append(dict(s="n", q=[r.choice(prev)]) if r.random() < 0.7 else dict(s="l", q=r.sample(prev, r.randint(1, min(2, len(prev))))))
        if prev and r.random() < 0.25:
            deps.append(r.choice(prev))
        p["kind"].append(kind)
        p["args"].append(args)
        p["deps"].append(sorted(set(deps)))
        p["reg"].append(kind == "src" or r.random() < (0.3 if kind == "lit" else 0.65))
    return p


CENTRES = {2021: [1615705200, 1636264800, 1616893200, 1635642000, 1617465600, 1633190400, 1617462000, 1633188600],
           2011: [1325239200, 1325239200 - 86400]}


def gen_instants(r, p, era):
    c = r.choice(CENTRES[era])
    width = r.choice([2, 1800, 3600, 7200, 50000])

    def one():
        return (c + r.choice([r.randint(-width, width), r.choice([-3600, -1, 0, 1, 3599, 1800])]), r.choice([0, 0, 0, 1, 999999]))

    inst = []
    for i in range(p["n"]):
        if not p["reg"][i] or r.random() < 0.06:
            inst.append(None)
        else:
            inst.append(one())
    if r.random() < 0.5:  # mostly in order, so that some stores are up to date
        have_ = sorted(x for x in inst if x)
        inst = [have_.pop(0) if x else None for x in inst]
    return inst, (one() if r.random() < 0.5 else None)


def plans(params, seed, shard, nshards):
    for k in itertools.count(shard, nshards):
        yield plan_one(params, sub(seed, "plans", params, k))


def plan_one(params, s):
    r = random.Random(s)
    files = tempfile.mkdtemp(dir=".") if params.get("files") else None
    p = gen_plan(r, r.randint(2, params.get("n", 6)))
    era = 2011 if r.random() < 0.1 and have("Pacific/Apia") else 2021
    inst, finst = gen_instants(r, p, era)
    # a source that is missing cannot be read
    inst = [x or ((CENTRES[era][0], 0) if k == "src" else None) for x, k in zip(inst, p["kind"])]
    w = World(r, p, files)
    t = []
    zones = r.sample(ERA[era], min(len(ERA[era]), params.get("zones", 4)))
    for z in zones:
        if set_tz(r, z):
            t.append(w.run(z, inst, finst, [r.choice(FORMS)] * p["n"], r.choice(FORMS), era))
    if files:
        shutil.rmtree(files, ignore_errors=True)
    return {"p": dict(p, inst=times_of(inst), finst=list(finst or (0, 0))), "t": t, "replay": ["instants", "plan_one", params, s],
            "count": {"decisions": len(t), "rewrites": sum(len(e["wrote"]) for e in t)}}
