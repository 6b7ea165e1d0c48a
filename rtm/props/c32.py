"""C32: benchmark dataset loaders against generated archives served in place of the network."""
import csv
import io
import os
import tarfile
import tempfile
import warnings
import zipfile
from contextlib import contextmanager
from unittest import mock

import numpy as np
from scipy.io import savemat

import skada.datasets as D
from skada.datasets import DomainAwareDataset

from .. import watch, zoo
from ..core import Skip, case

CALTECH = ["back_pack", "bike", "calculator", "headphones", "keyboard", "laptop_computer", "monitor", "mouse", "mug", "projector"]
OTHERS = ["stapler", "ruler", "bottle", "speaker"]


class AnyHash(str):
    """Compares equal to every checksum: the generated archive stands for the published one."""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = str.__hash__


def mat(**kw):
    b = io.BytesIO()
    savemat(b, kw)
    return b.getvalue()


def office_files(rng, kind, doms=("amazon", "webcam", "dslr")):
    """{relative path: bytes} and {domain: {category: [vectors]}} of a small Office-31."""
    files, truth = {}, {}
    dim, key = (800, "histogram") if kind == "surf" else (1000, "fc8")
    sub = "interest_points" if kind == "surf" else "decaf-fts"
    cats = sorted(rng.choice(CALTECH, size=int(rng.integers(2, 5)), replace=False).tolist()
                  + rng.choice(OTHERS, size=int(rng.integers(1, 3)), replace=False).tolist())
    n = 0
    for d in doms:
        truth[d] = {}
        for c in cats:
            truth[d][c] = []
            for i in range(int(rng.integers(1, 4))):
                n += 1
                v = rng.integers(0, 256, size=dim) if kind == "surf" else rng.random(dim) * 10. ** rng.integers(-6, 7)
                v[:2] = divmod(n, 100)
                name = f"histogram_{i:04d}.SURF_SURF.amazon_800.SURF_SURF.mat" if kind == "surf" else f"frame_{i:04d}.mat"
                files[f"{d}/{sub}/{c}/{name}"] = mat(**{key: v[None]})
                truth[d][c].append(v.astype(np.uint8 if kind == "surf" else float))
                if kind == "surf" and rng.random() < .5:   # other files of the archive, to be skipped
                    files[f"{d}/{sub}/{c}/histogram_{i:04d}.SURF_SURF.dslr_600.SURF_SURF.mat"] = mat(histogram=np.ones((1, 600)))
    return files, truth, cats


def tar(files, root):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for p, c in files.items():
            i = tarfile.TarInfo(root + p)
            i.size = len(c)
            t.addfile(i, io.BytesIO(c))
    return b.getvalue()


def zipped(files):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for p, c in files.items():
            z.writestr(p, c)
    return b.getvalue()


@contextmanager
def scratch():
    """A folder of its own for everything a case may write, the user's home included."""
    with tempfile.TemporaryDirectory(prefix="rtm32") as d:
        with mock.patch.dict(os.environ, {"HOME": os.path.join(d, "user-home"), "SKADA_DATA_FOLDER": os.path.join(d, "user-data")}):
            yield os.path.join(d, "data")


class World:
    """One benchmark: what is stored, the archive on the 'network', its loaders and the domain names."""
    def __init__(self, kind, rng):
        self.kind, self.cats = kind, None
        if kind in ("surf", "decaf"):
            f, self.truth, self.cats = office_files(rng, kind)
            self.archive = tar(f, "domain_adaptation_features/" if kind == "surf" else "")
            self.one, self.all = getattr(D, f"fetch_office31_{kind}"), getattr(D, f"fetch_office31_{kind}_all")
            self.enum = D.Office31Domain
            self.rows = {d: [(v, c) for c in sorted(t) for v in t[c]] for d, t in self.truth.items()}
        elif kind == "amazon":
            self.rows, f = {}, {}
            for d in ("books", "dvd", "kitchen", "elec"):
                n = int(rng.integers(3, 12))
                X, y = rng.normal(size=(n, 400)).astype(np.float32), rng.integers(1, 3, size=n)
                f[f"amazon_review/{d}_400.mat"] = mat(fts=X, labels=y[:, None])
                self.rows[d] = list(zip(X, y.astype(np.float32)))
            self.archive = zipped(f)
            self.one, self.all, self.enum = D.fetch_amazon_review, D.fetch_amazon_review_all, D.AmazonReviewDomain
        else:
            names = {"art": "Art", "clipart": "Clipart", "product": "Product", "realworld": "RealWorld"}
            self.rows = {d: [] for d in names}
            s = io.StringIO()
            w = csv.writer(s)
            w.writerow([str(i) for i in range(2048)] + ["label", "domain"])
            order = list(names) + rng.choice(list(names), size=int(rng.integers(4, 16))).tolist()
            for d in order:
                x, c = rng.normal(size=2048).astype(np.float32), str(rng.choice(["Alarm_Clock", "Desk, Lamp", "Bed", "TV"]))
                w.writerow([repr(float(v)) for v in x] + [c, names[d]])
                self.rows[d].append((x, c))
            self.archive = zipped({"OfficeHomeResnet50.csv": s.getvalue().encode()})
            self.one, self.all, self.enum = D.fetch_office_home, D.fetch_office_home_all, D.OfficeHomeDomain

    def expected(self, d, cats=None):
        rows = [(v, c) for v, c in self.rows[d] if cats is None or c in cats]
        names = None
        if self.cats is not None:
            names = [c for c in self.cats if cats is None or c in cats]
            rows = [(v, names.index(c)) for v, c in rows]
        return np.array([v for v, _ in rows]), np.array([c for _, c in rows]), names


@contextmanager
def network(world, fault=None, log=None):
    """Serve the archive where scikit-learn would download; `fault` makes one stage fail."""
    from sklearn.datasets import _base as B
    log = [] if log is None else log
    fired = []

    def urlretrieve(url, filename, *a, **k):
        log.append("download")
        if fault in ("connection", "interrupt", "checksum"):
            fired.append(fault)
        if fault == "connection":
            raise ConnectionResetError("injected: connection lost")
        with open(filename, "wb") as f:
            f.write(world.archive[:len(world.archive) // 2] if fault == "interrupt" else world.archive)
        if fault == "interrupt":
            raise KeyboardInterrupt
        return filename, {}

    real_zip, real_tar = zipfile.ZipFile.extractall, tarfile.TarFile.extractall

    def zip_all(self, path=None, members=None, pwd=None):
        if fault == "disk-full":
            fired.append(fault)
            for m in self.namelist()[:1]:
                self.extract(m, path)
            raise OSError(28, "injected: no space left on device")
        return real_zip(self, path, members, pwd)

    def tar_all(self, path=".", *a, **k):
        if fault == "disk-full":
            fired.append(fault)
            for m in self.getmembers()[:3]:
                self.extract(m, path, filter="data")
            raise OSError(28, "injected: no space left on device")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return real_tar(self, path, *a, **k)

    sha = (lambda p: "0" * 64) if fault == "checksum" else (lambda p: AnyHash("x"))
    with mock.patch.object(B, "urlretrieve", urlretrieve), mock.patch.object(B, "_sha256", sha), \
            mock.patch.object(zipfile.ZipFile, "extractall", zip_all), mock.patch.object(tarfile.TarFile, "extractall", tar_all):
        yield fired if fault else log


def same_rows(rec, X, y, eX, ey, key, **ctx):
    """(X, y) is a permutation of the expected rows, each with its own label."""
    X, y = np.asarray(X), np.asarray(y)
    rec.must(X.shape == eX.shape and y.shape == ey.shape, key + ":size", "number of stored samples or features", got=X.shape, want=eX.shape, **ctx)
    a, b = np.lexsort(X.T[::-1]), np.lexsort(eX.T[::-1])
    rec.equal(X[a], eX[b], key + ":samples", "the samples returned are not the stored ones")
    rec.equal(y[a], ey[b], key + ":labels", "a sample comes with another one's label")


def fetch(w, d, **kw):
    return w.one(d, return_X_y=True, **kw)


@case("C32", quick=60, thorough=1200, requires=["downloads", "single-domain", "all-domains"])
def fetchers(rec, rng):
    kind = zoo.pick(rng, ["surf", "decaf", "amazon", "home"])
    w = World(kind, rng)
    with scratch() as home, rec.context(kind=kind):
        if rng.random() < .3:
            home = os.path.join(home, "not", "yet")
        log = []
        d0 = zoo.pick(rng, sorted(w.rows))
        with network(w, log=log):
            for _ in range(2):   # a refused call leaves nothing that the next one takes for the data
                rec.rejects("absent-data-accepted", lambda: fetch(w, d0, data_home=home, download_if_missing=False), OSError,
                            "download_if_missing=False without data must raise OSError")
            rec.expect(not log, "downloads-unasked", "downloaded although download_if_missing=False")
            for d in sorted(w.rows):
                with rec.call("fetch"):
                    g0 = watch.global_rng_state()
                    ref = {"name": d, "upper": d.upper(), "enum": w.enum(d)}
                    X, y = fetch(w, zoo.pick(rng, list(ref.values())), data_home=home)
                    X2, y2 = fetch(w, d, data_home=home)
                eX, ey, names = w.expected(d)
                same_rows(rec, X, y, eX, ey, "single", domain=d)
                rec.equal(X2, X, "single:repeat", "two calls give different samples")
                rec.equal(y2, y, "single:repeat", "two calls give different labels")
                rec.expect(X.dtype == eX.dtype, "single:dtype", "documented data type", got=str(X.dtype))
                rec.event("single-domain")
                s = int(rng.integers(1 << 30)) * (rng.random() < .7)
                with rec.call("fetch-shuffled"):
                    A = fetch(w, d, data_home=home, shuffle=True, random_state=s)
                    B = fetch(w, d, data_home=home, shuffle=True, random_state=np.random.RandomState(s))
                same_rows(rec, *A, eX, ey, "shuffled", domain=d)
                rec.equal(A[0], B[0], "shuffled:seed", "an integer and the equivalent RandomState shuffle differently")
                rec.equal(A[1], B[1], "shuffled:seed", "an integer and the equivalent RandomState shuffle differently")
                rec.expect(watch.global_rng_state() == g0, "global-rng", "loading consumed the global random state")
                if len(X) >= 6:
                    orders = {fetch(w, d, data_home=home, shuffle=True, random_state=s + i)[0].tobytes() for i in range(4)}
                    rec.expect(len(orders) > 1, "shuffled:constant", "shuffle=True never changes the order")
                with rec.call("fetch-object"):
                    o = w.one(d, data_home=home)
                oX, oy = o.get_domain(d)[:2] if isinstance(o, DomainAwareDataset) else (o["X"], o["y"])
                rec.equal(oX, X, "forms", "arrays and object hold different samples")
                rec.equal(oy, y, "forms", "arrays and object hold different labels")
                if names is not None:
                    rec.expect(list(o["target_names"]) == names, "target-names", "label names", got=list(o["target_names"]), want=names)
            rec.expect(log == ["download"], "download-count", "the archive is downloaded once", got=len(log))
            rec.event("downloads", len(log))
            kw = dict(shuffle=True, random_state=int(rng.integers(1 << 30))) if rng.random() < .5 else {}
            with rec.call("fetch-all"):
                ds = w.all(data_home=home, **kw)
            rec.must(isinstance(ds, DomainAwareDataset), "all:type", "not a DomainAwareDataset")
            rec.expect(sorted(ds.domain_names_) == sorted(w.rows), "all:domains", "every domain under its name", got=list(ds.domain_names_))
            for d in sorted(w.rows):
                eX, ey, _ = w.expected(d)
                same_rows(rec, *ds.get_domain(d)[:2], eX, ey, "all", domain=d)
            rec.event("all-domains")
            if not kw:
                s, t = zoo.pick(rng, sorted(w.rows)), zoo.pick(rng, sorted(w.rows))
                if s != t:
                    X, y, sd = ds.pack(as_sources=[s], as_targets=[t], mask_target_labels=False)
                    same_rows(rec, X[sd > 0], y[sd > 0], *w.expected(s)[:2], "all:packed", domain=s)
                    same_rows(rec, X[sd < 0], y[sd < 0], *w.expected(t)[:2], "all:packed", domain=t)
            rec.rejects("unknown-domain", lambda: fetch(w, "unknown-domain", data_home=home), ValueError, "an unknown domain must be refused")
            if w.cats is not None:
                categories(rec, rng, w, home)
        rec.seen("kind", kind)


def categories(rec, rng, w, home):
    d = zoo.pick(rng, sorted(w.rows))
    preset = D.Office31CategoriesPreset
    with rec.call("categories"):
        X, y = fetch(w, d, data_home=home, categories=preset.ALL)
    same_rows(rec, X, y, *w.expected(d)[:2], "categories:all", domain=d)
    for want, arg in ((sorted(set(w.cats) & set(CALTECH)), preset.CALTECH256),
                      (c := rng.choice(w.cats, size=int(rng.integers(1, len(w.cats) + 1)), replace=False).tolist(), c)):
        with warnings.catch_warnings(record=True) as rw, rec.call("categories"):
            warnings.simplefilter("always")
            o = w.one(d, data_home=home, categories=arg, shuffle=bool(rng.random() < .5), random_state=0)
        eX, ey, names = w.expected(d, want)
        same_rows(rec, o["X"], o["y"], eX, ey, "categories", domain=d, categories=str(arg))
        rec.expect(list(o["target_names"]) == names, "categories:names", "label names of the selection", got=list(o["target_names"]), want=names)
        missing = isinstance(arg, preset) and set(CALTECH) - set(w.cats)
        rec.expect(any("not found" in str(x.message) for x in rw) == bool(missing), "categories:warning", "absent categories are reported, present ones are not")
    with warnings.catch_warnings(record=True) as rw, rec.call("categories"):
        warnings.simplefilter("always")
        X, y = fetch(w, d, data_home=home, categories=[w.cats[0], "this-wont-be-found"])
    same_rows(rec, X, y, *w.expected(d, [w.cats[0]])[:2], "categories:unknown", domain=d)
    rec.expect(any("this-wont-be-found" in str(x.message) for x in rw), "categories:unknown-warning", "an unknown category is not reported")
    rec.event("categories")


@case("C32", quick=60, thorough=1000, requires=["faults", "recovered"])
def failed_downloads(rec, rng):
    """A download that fails at any stage raises, and the next call downloads again and succeeds."""
    kind = zoo.pick(rng, ["surf", "decaf", "amazon", "home"])
    w = World(kind, rng)
    fault = zoo.pick(rng, ["connection", "interrupt", "checksum", "disk-full"])
    use_all = bool(rng.random() < .3)
    d = zoo.pick(rng, sorted(w.rows))
    with scratch() as home, rec.context(kind=kind, fault=fault, all=use_all):
        go = (lambda **k: w.all(data_home=home, **k)) if use_all else (lambda **k: fetch(w, d, data_home=home, **k))
        for _ in range(int(rng.integers(1, 3))):
            with network(w, fault) as fired:
                try:
                    go()
                except (OSError, KeyboardInterrupt) as e:
                    rec.event("faults")
                    rec.seen("fault", kind, fault, type(e).__name__)
                else:
                    if not fired:
                        raise Skip("the fault did not reach this way of downloading")
                    rec.violate("failure-hidden", "a failed download did not raise", fault=fault)
        with network(w):
            rec.rejects("half-download-taken-for-data", lambda: go(download_if_missing=False), OSError,
                        "after a failed download there is no data: download_if_missing=False must raise 'data not found'")
            with rec.call("no-recovery"):
                got = go()
        with network(w):
            with rec.call("no-recovery"):
                again = go(download_if_missing=False)
        for g in (got, again):
            for dd in (sorted(w.rows) if use_all else [d]):
                X, y = g.get_domain(dd)[:2] if use_all else g
                same_rows(rec, X, y, *w.expected(dd)[:2], "recovered", domain=dd)
        rec.event("recovered")


@case("C32", quick=40, thorough=400, requires=["data-homes"])
def data_home(rec, rng):
    """The data folder: explicit, from the environment, '~' expanded, created when missing."""
    with tempfile.TemporaryDirectory(prefix="rtm32") as base:
        env = {"HOME": os.path.join(base, "user")}
        sub = "/".join("d%d" % rng.integers(9) for _ in range(int(rng.integers(1, 4))))
        form = zoo.pick(rng, ["explicit", "tilde", "env", "env-tilde", "default", "explicit-over-env", "path"])
        arg, want = None, os.path.join(base, sub)
        if form in ("explicit", "explicit-over-env"):
            arg = want
        elif form == "path":
            import pathlib
            arg = pathlib.Path(want)
        elif form == "tilde":
            arg, want = "~/" + sub, os.path.join(env["HOME"], sub)
        elif form == "env":
            env["SKADA_DATA_FOLDER"] = want
        elif form == "env-tilde":
            env["SKADA_DATA_FOLDER"], want = "~/" + sub, os.path.join(env["HOME"], sub)
        else:
            want = os.path.join(env["HOME"], "skada_datasets")
        if form == "explicit-over-env":
            env["SKADA_DATA_FOLDER"] = os.path.join(base, "elsewhere")
        with mock.patch.dict(os.environ, env):
            if "SKADA_DATA_FOLDER" not in env:
                os.environ.pop("SKADA_DATA_FOLDER", None)
            before = dict(os.environ)
            for _ in range(2):
                with rec.call("data-home"):
                    got = D.get_data_home(arg)
                rec.expect(os.path.realpath(got) == os.path.realpath(want) and os.path.isdir(want), "data-home:path", "data folder", form=form, got=str(got), want=want)
                open(os.path.join(want, "keep"), "a").close()
            rec.expect(dict(os.environ) == before, "data-home:environment", "the environment was changed")
            rec.expect(not os.path.exists(os.path.join(base, "elsewhere")), "data-home:precedence", "the environment overrides an explicit folder")
            if rng.random() < .3:
                w = World("amazon", rng)
                with network(w), rec.call("data-home"):
                    X, y = fetch(w, "books", data_home=arg)
                    X2, y2 = fetch(w, "books", data_home=want, download_if_missing=False)
                same_rows(rec, X, y, *w.expected("books")[:2], "data-home:fetch")
                rec.equal(X2, X, "data-home:fetch", "data not found where it was asked to be")
        rec.event("data-homes")
        rec.seen("home", form)


@case("C32", quick=40, thorough=500, requires=["digits"])
def digits(rec, rng):
    """MNIST/USPS: stored images of the kept classes, normalised as documented, no image twice."""
    try:
        import torch
        import torchvision
        from PIL import Image
    except ImportError:
        raise Skip("torchvision or PIL missing")
    sizes = {"mnist": int(rng.integers(12, 50)), "usps": int(rng.integers(12, 50))}
    store = {}
    for k, n in sizes.items():
        s = 28 if k == "mnist" else 16
        y = np.concatenate([np.arange(10), rng.integers(0, 10, size=n)])
        rng.shuffle(y)
        for train in (False, True):
            store[k, train] = (rng.integers(0, 256, size=(len(y), s, s)).astype(np.uint8), y)
    calls = []

    def maker(k):
        class Fake:
            def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
                calls.append((k, bool(train)))
                self.imgs, self.lab = store[k, bool(train)]
                self.targets = torch.tensor(self.lab) if k == "mnist" else self.lab.tolist()
                self.transform = transform

            def __len__(self):
                return len(self.imgs)

            def __getitem__(self, i):
                return self.transform(Image.fromarray(self.imgs[i])), int(self.lab[i])
        return Fake

    train = bool(rng.random() < .5)
    C = int(rng.integers(2, 11))
    frac = zoo.pick(rng, [1, 1.0, .5, .2, .73])
    seed = int(rng.integers(1 << 30))
    kw = dict(n_samples=frac, n_classes=C, train=train)
    here = os.getcwd()
    with scratch() as tmp, mock.patch.object(torchvision.datasets, "MNIST", maker("mnist")), \
            mock.patch.object(torchvision.datasets, "USPS", maker("usps")), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.makedirs(tmp)
        os.chdir(tmp)
        try:
            g0 = watch.global_rng_state()
            with rec.call("digits"):
                X, y, sd = D.load_mnist_usps(random_state=seed, **kw)
                X2, y2, sd2 = D.load_mnist_usps(random_state=seed, **kw)
                b = D.load_mnist_usps(random_state=seed, return_X_y=False, **kw)
                ds = D.load_mnist_usps(random_state=seed, return_dataset=True, **kw)
            rec.expect(watch.global_rng_state() == g0, "digits:global-rng", "a seeded load consumed the global random state")
            with rec.call("digits-randomstate"):
                r = [D.load_mnist_usps(random_state=np.random.RandomState(seed), **kw) for _ in range(2)]
            rec.equal(r[0][0], r[1][0], "digits:randomstate", "equal RandomState instances give different samples")
            for bad in (-.1, 1.5):
                rec.rejects("digits:fraction", lambda: D.load_mnist_usps(**{**kw, "n_samples": bad}), ValueError, "a fraction outside [0, 1] must be refused")
        finally:
            os.chdir(here)
    rec.equal(X2, X, "digits:seed", "same seed, other samples")
    rec.equal(y2, y, "digits:seed", "same seed, other labels")
    rec.equal(b["X"], X, "digits:forms", "bunch and arrays differ")
    rec.equal(b["y"], y, "digits:forms", "bunch and arrays differ")
    rec.equal(b["sample_domain"], sd, "digits:forms", "bunch and arrays differ")
    rec.expect(set(calls) == {("mnist", train), ("usps", train)}, "digits:part", "the train or test part asked for", got=set(calls))
    rec.expect(set(sd.tolist()) <= set(b["domain_names"].values()) and set(b["domain_names"]) == {"mnist", "usps"},
               "digits:domains", "domain table", got=b["domain_names"])
    for k, pos in (("mnist", True), ("usps", False)):
        img, lab = store[k, train]
        ref = img.astype(np.float32) / 255
        if k == "usps":
            ref = np.pad(ref, ((0, 0), (6, 6), (6, 6)))
        ref = (ref - np.float32(.1307)) / np.float32(.3081)
        m = (sd > 0) == pos
        P, q = X[m], np.asarray(y)[m]
        dX, dy = ds.get_domain(k)[:2]
        rec.equal(np.asarray(dX), P, "digits:forms", "dataset object and arrays differ")
        rec.equal(np.asarray(dy), q, "digits:forms", "dataset object and arrays differ")
        kept = int((lab < C).sum())
        rec.expect(P.shape == (int(frac * kept), 1, 28, 28), "digits:size", "number or shape of the images", domain=k, got=P.shape, kept=kept, frac=frac)
        rec.expect((q < C).all(), "digits:classes", "an image of a class that was not asked for", domain=k)
        used = []
        for x, c in zip(P, q):
            dist = np.abs(ref - x[0]).max(axis=(1, 2))
            i = int(dist.argmin())
            rec.expect(dist[i] < 1e-4, "digits:pixels", "not a stored image with the documented normalisation", domain=k, err=float(dist[i]))
            rec.expect(lab[i] == c, "digits:labels", "an image comes with another one's label", domain=k)
            used.append(i)
        rec.expect(len(set(used)) == len(used), "digits:twice", "an image is returned more than once", domain=k, images=len(used), distinct=len(set(used)), frac=frac)
    rec.event("digits")
    rec.seen("digits", C, frac, train)
