import io, json, os, tempfile, shutil, zipfile
import numpy as np, pandas as pd
from irspack.dataset import (MINDDataManager, CiteULikeADataManager, NeuMFML1MDownloader, NeuMFMPinterestDownloader,
                             MovieLens100KDataManager, MovieLens1MDataManager, MovieLens20MDataManager, AmazonMusicDataManager)

class Tmp:
    def __enter__(self): self.d = tempfile.mkdtemp(prefix="verif23_"); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def archive(d, name, members):
    p = os.path.join(d, name)
    with zipfile.ZipFile(p, "w") as z:
        for k, v in members.items(): z.writestr(k, v)
    return p

def rows(df, cols): return [tuple(r) for r in df[cols].itertuples(index=False, name=None)]

def cmp(c, df, cols, exp, what):
    c.expect(list(df.columns) == cols, "%s: columns %r, documented %r" % (what, list(df.columns), cols))
    got = rows(df, cols)
    c.expect(len(got) == len(exp), "%s: %d rows for %d records" % (what, len(got), len(exp)), got=got, expected=exp)
    for k, (a, b) in enumerate(zip(got, exp)):
        c.expect(all(x == y for x, y in zip(a, b)), "%s: row %d is %r, record gives %r" % (what, k, a, b))

def ts(c): return c.pick([0, c.integer(1, 2 * 10**9), c.integer(8 * 10**8, 2 * 10**9)])
def stamp(t): return pd.Timestamp(t, unit="s")

def neumf(c):
    cls = c.pick([NeuMFML1MDownloader, NeuMFMPinterestDownloader])
    n = c.integer(1, 8)
    train = [(c.integer(0, 5), c.integer(0, 9), c.integer(1, 5), ts(c)) for _ in range(n)]
    lines, exp = [], []
    for u in range(c.integer(1, 8)):
        uid = u if c.chance(0.8) else c.integer(0, 9999)
        pos = c.integer(0, 30)
        neg = [c.integer(0, 30) for _ in range(c.pick([1, 2, 3, 20]))]
        sp = c.pick(["(%d,%d)", "( %d , %d )", "(%d, %d)"])
        lines.append("\t".join([sp % (uid, pos)] + [str(x) for x in neg]))
        for k, x in enumerate([pos] + neg):
            if not any(e[0] == uid and e[1] == x for e in exp): exp.append((uid, x, k == 0))
    end = c.pick(["\n", ""])
    c.note(train=train, test=lines)
    with Tmp() as d:
        p = archive(d, "a.zip", {"train": "\n".join("\t".join(map(str, r)) for r in train) + end, "test": "\n".join(lines) + end})
        tr, te = cls(p).read_train_test()
    cmp(c, tr, ["user_id", "item_id", "rating", "timestamp"], [(a, b, r, stamp(t)) for a, b, r, t in train], "train part")
    cmp(c, te, ["user_id", "item_id", "positive"], exp, "test part")

def citeulike(c):
    lines, exp = [], []
    for u in range(c.integer(1, 9)):
        it = [c.integer(0, 40) for _ in range(c.pick([0, 1, 2, 7]))]
        lines.append(" ".join(map(str, [len(it)] + it)))
        exp += [(u, i) for i in it]
    c.note(lines=lines)
    with Tmp() as d:
        p = archive(d, "a.zip", {"citeulike-a-master/users.dat": "\n".join(lines) + c.pick(["\n", ""]),
                                 "citeulike-a-master/raw-data.csv": "doc.id,title\n1,a\n2,b\n5,c\n"})
        m = CiteULikeADataManager(p)
        df = m.read_interaction()
        cmp(c, df, ["user_id", "item_id"], exp, "interactions")
        meta = m.read_item_meta()
        c.expect(list(meta.index) == [0, 1, 4] and list(meta["title"]) == ["a", "b", "c"], "item meta data misaligned", got=meta.reset_index())

def mind(c):
    data = {}
    with Tmp() as d:
        paths = {}
        for s in ("train", "dev"):
            recs = []
            ids = c.rng.permutation(50)[: c.integer(1, 6)]
            for k in ids:
                t = pd.Timestamp("2019-11-09") + pd.Timedelta(seconds=int(c.integer(0, 86400 * 9)))
                cands = [("N%d" % c.integer(0, 20) if c.chance(0.9) else "N-%d" % c.integer(0, 9), c.chance(0.3)) for _ in range(c.pick([1, 2, 3, 12]))]
                hist = " ".join("N%d" % c.integer(0, 20) for _ in range(c.pick([0, 1, 4])))
                recs.append((int(k) + 1, "U%d" % c.integer(0, 4), t, hist, cands))
            data[s] = recs
            txt = "\n".join("%d\t%s\t%s\t%s\t%s" % (i, u, "%d/%d/%d %d:%02d:%02d %s" % (t.month, t.day, t.year, (t.hour % 12) or 12, t.minute, t.second, "AM" if t.hour < 12 else "PM"), h,
                            " ".join("%s-%d" % (x, int(b)) for x, b in cs)) for i, u, t, h, cs in recs)
            nit = c.integer(1, 4)
            news = [("N%d" % (k if s == "train" else k + c.pick([0, 2])), "cat%d" % k, "sub", "Title %d" % k, "" if c.chance(0.3) else "abs", "http://x/%d" % k, json.dumps([{"WikidataId": "Q%d" % k}]) if c.chance(0.7) else "[]", "[]") for k in range(nit)]
            data[s + "news"] = news
            pre = c.pick(["", "MINDsmall_%s/" % s])
            emb = [("Q%d" % k, c.integer(0, 9) / 4, c.integer(-9, 9) / 8) for k in range(c.integer(1, 3))]
            data[s + "emb"] = emb
            paths[s] = archive(d, s + ".zip", {pre + "behaviors.tsv": txt + "\n", pre + "news.tsv": "\n".join("\t".join(r) for r in news) + "\n",
                                               pre + "entity_embedding.vec": "\n".join("\t".join(map(str, e)) for e in emb) + "\n",
                                               pre + "relation_embedding.vec": "\n".join("\t".join(map(str, e)) for e in emb[::-1]) + "\n"})
        c.note(behaviors={s: [(r[0], r[1], str(r[2]), r[3], r[4]) for r in data[s]] for s in ("train", "dev")})
        m = MINDDataManager(paths["train"], paths["dev"])
        try:
            for split in (None, "train", "dev"):
                use = ("train", "dev") if split is None else (split,)
                exp = [(i, u, t, x, b, k, s) for s in use for i, u, t, h, cs in data[s] for k, (x, b) in enumerate(cs)]
                cols = ["impression_id", "user_id", "timestamp", "item_id", "clicked", "position", "split"]
                df = m.read_impressions(split)
                cmp(c, df, cols, exp, "impressions")
                c.expect(list(df.index) == list(range(len(exp))), "row labels not consecutive")
                cmp(c, m.read_impressions(split, clicked_only=True), cols, [e for e in exp if e[4]], "clicked impressions")
                cmp(c, m.read_interaction(split), ["impression_id", "user_id", "timestamp", "item_id", "split"], [e[:4] + (e[6],) for e in exp if e[4]], "interactions")
                it = m.read_item_info(split)
                ref = {}
                for s in use:
                    for r in data[s + "news"]: ref.setdefault(r[0], r)
                c.expect(sorted(it.index) == sorted(ref), "item info lists %r" % list(it.index))
                for k, r in ref.items():
                    c.expect(it.loc[k, "category"] == r[1] and it.loc[k, "title"] == r[3] and it.loc[k, "title_entities"] == json.loads(r[6]), "item info of %s" % k, got=dict(it.loc[k]), record=r)
            for s in ("train", "dev"):
                b = m.read_behaviors(s)
                c.expect([tuple(x) for x in b[["impression_id", "user_id", "timestamp"]].itertuples(index=False)] == [r[:3] for r in data[s]], "behaviours of %s" % s)
                for f, e in ((m.read_entity_embeddings, data[s + "emb"]), (m.read_relation_embeddings, data[s + "emb"][::-1])):
                    v = f(s)
                    c.expect(list(v.index) == [x[0] for x in e] and np.allclose(v.values, [x[1:] for x in e]), "embeddings of %s" % s)
            for bad in ("test", "", "Train"):
                with c.raises("split %r accepted" % bad): m.read_impressions(bad)
        finally:
            m.close()

def movielens(c):
    n = c.integer(1, 10)
    R = [(c.integer(1, 99), c.integer(1, 99), c.pick([1, 2, 3, 4, 5]), ts(c)) for _ in range(n)]
    exp = [(a, b, r, stamp(t)) for a, b, r, t in R]
    cols = ["userId", "movieId", "rating", "timestamp"]
    c.note(records=R)
    with Tmp() as d:
        k = c.pick([100, 1, 20])
        if k == 100:
            genres = ["g%d" % j for j in range(c.integer(1, 5))]
            items = [(j * 3 + 1, "T%d" % j, "01-Jan-199%d" % (j % 10), [int(c.chance(0.4)) for _ in genres]) for j in range(c.integer(1, 6))]
            users = [(j + 1, c.integer(7, 70), c.pick("MF"), "job", "%05d" % c.integer(10000, 99999)) for j in range(c.integer(1, 5))]
            p = archive(d, "a.zip", {"ml-100k/u.data": "\n".join("\t".join(map(str, r)) for r in R) + "\n",
                "ml-100k/u.genre": "\n".join("%s|%d" % (g, j) for j, g in enumerate(genres)) + "\n\n",
                "ml-100k/u.item": "\n".join("|".join(map(str, [i, t, dt, "", "http://x"] + fl)) for i, t, dt, fl in items) + "\n",
                "ml-100k/u.user": "\n".join("|".join(map(str, u)) for u in users) + "\n"})
            m = MovieLens100KDataManager(p)
            cmp(c, m.read_interaction(), cols, exp, "interactions")
            info, gen = m.read_item_info()
            c.expect(list(info.index) == [i[0] for i in items] and list(info["title"]) == [i[1] for i in items], "item info misaligned")
            e = [(i[0], g) for i in items for g, f in zip(genres, i[3]) if f]
            if e: c.expect(sorted(rows(gen, ["movieId", "genre"])) == sorted(e), "genre table %r, flags give %r" % (rows(gen, ["movieId", "genre"]), e))
            ui = m.read_user_info()
            c.expect(list(ui.index) == [u[0] for u in users] and list(ui["age"]) == [u[1] for u in users] and list(ui["gender"]) == [u[2] for u in users], "user info misaligned")
        elif k == 1:
            items = [(j * 2 + 1, c.pick(["Movie: %d (19%02d)", "M %d (x) (19%02d)"]) % (j, c.integer(10, 99)), "A|B") for j in range(c.integer(1, 5))]
            p = archive(d, "a.zip", {"ml-1m/ratings.dat": "\n".join("::".join(map(str, r)) for r in R) + "\n",
                "ml-1m/movies.dat": "\n".join("::".join(map(str, r)) for r in items) + "\n", "ml-1m/users.dat": "1::F::1::10::48067\n2::M::56::16::70072\n"})
            m = MovieLens1MDataManager(p)
            cmp(c, m.read_interaction(), cols, exp, "interactions")
            info = m.read_item_info()
            c.expect(list(info.index) == [i[0] for i in items] and list(info["title"]) == [i[1] for i in items] and list(info["genres"]) == [i[2] for i in items], "item info misaligned", got=info.reset_index())
            c.expect(list(info["release_year"]) == [int(i[1][-5:-1]) for i in items], "release years %r" % list(info["release_year"]))
            ui = m.read_user_info()
            c.expect(list(ui.index) == [1, 2] and list(ui["gender"]) == ["F", "M"] and list(ui["age"]) == [1, 56] and list(ui["occupation"]) == [10, 16], "user info misaligned")
        else:
            p = archive(d, "a.zip", {"ml-20m/ratings.csv": "userId,movieId,rating,timestamp\n" + "\n".join(",".join(map(str, (a, b, r + 0.5, t))) for a, b, r, t in R) + "\n"})
            cmp(c, MovieLens20MDataManager(p).read_interaction(), cols, [(a, b, r + 0.5, t) for a, b, r, t in exp], "interactions")

def amazon(c):
    R = [("U%d" % c.integer(0, 9), "M%d" % c.integer(0, 9), float(c.integer(1, 5)), ts(c)) for _ in range(c.integer(1, 8))]
    meta = [dict(asin="M%d" % j, **({"title": "T%d" % j} if c.chance() else {}), **({"price": j + 0.5} if c.chance() else {}), **({"categories": [["a", "b%d" % j]]} if c.chance() else {})) for j in range(c.integer(1, 4))]
    c.note(records=R, meta=meta)
    with Tmp() as d:
        p = archive(d, "a.zip", {"amazon-music/ratings.csv": "\n".join(",".join(map(str, r)) for r in R) + "\n", "amazon-music/music-meta.json": "\n".join(repr(x) for x in meta) + "\n"})
        m = AmazonMusicDataManager(p)
        cmp(c, m.read_interaction(), ["user_id", "music_id", "rating", "timestamp"], R, "interactions")
        t = m.read_metadata()
    c.expect(list(t.index) == [x["asin"] for x in meta], "meta data misaligned")
    c.expect([None if not isinstance(x, str) else x for x in t["title"]] == [x.get("title") for x in meta], "titles misaligned")

CASES = [mind, neumf, citeulike, movielens, mind, amazon]
MAXN = dict(quick=1500, thorough=20000)
