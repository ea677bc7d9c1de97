"""Writes programs that compose scopes and routes, each with what it must make."""
import copy, random, sys
out, seed, tier, part = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
R = random.Random(seed * 6271 + 30 + part * 1000003)
# the last part holds the programs that are served
N, E = (9, 0) if part < 4 else (0, 5)
if tier != "quick":
    N, E = 4 * N, 3 * E
VERBS = ["get", "post", "put", "patch", "delete_", "head", "options", "unknown"]
MAXR, MAXM = 7, 5


class Gen:
    def __init__(self, e2e):
        self.e2e, self.lines, self.scopes, self.routes, self.n, self.params = e2e, [], [], [], 0, 0

    def id(self):
        self.n += 1
        return self.n

    def param(self):
        self.params += 1
        return "p%d" % (self.params % 7)

    def segs(self, lo, hi):
        s = ""
        for _ in range(R.randint(lo, hi)):
            s += "/" + ("{%s}" % self.param() if R.random() < .25 else R.choice(["a", "b", "ab", "c.d", "x1", "v~", ""][:7 if R.random() < .2 else 6]))
        return s

    def scope_path(self):
        return R.choice(["", "", self.segs(1, 1), self.segs(1, 1), self.segs(1, 2)])

    def route_path(self):
        p = R.choice([self.segs(0, 1), self.segs(1, 2), self.segs(1, 1), "z", "/"])
        if R.random() < .15:
            p += "/#" + self.param()
        return p

    def valid(self, path):
        names, rest = [], path
        import re
        names = re.findall(r"\{(.*?)\}|#(.*)$", path)
        names = [a or b for a, b in names]
        if len(set(names)) != len(names):
            return False
        # a parameter is a whole segment; nothing follows a wildcard
        return all(path[m.end():m.end() + 1] in ("", "/") for m in re.finditer(r"\}", path)) and \
            all(m.start() and path[m.start() - 1] == "/" for m in re.finditer(r"\{", path)) and \
            ("#" not in path or ("/" not in path[path.index("#"):] and "{" not in path[path.index("#"):]))

    def var(self, kind, obj, expr):
        name = "%s%d" % (kind, len(self.lines))
        self.lines.append("auto %s = %s;" % (name, expr))
        obj["name"] = name
        (self.scopes if kind == "s" else self.routes).append(obj)

    def new_scope(self):
        p = self.scope_path()
        while not self.valid(p):
            p = self.scope_path()
        return {"path": p, "states": [], "mws": [], "routes": []}, ('scope<"%s">()' % p if p or R.random() < .5 else "scope()")

    def new_route(self):
        p = self.route_path()
        while not self.valid(p):
            p = self.route_path()
        v, i = R.choice(VERBS), self.id()
        r = {"method": v, "path": p, "states": [], "mws": [], "h": i}
        hh = "%s { %d }" % ("eh" if self.e2e else "h", i)
        if v == "unknown":
            e = 'route::any<"%s">(%s)' % (p, hh)
        elif R.random() < .2:
            e = 'route::handle<"%s">(http::verb::%s, %s)' % (p, v, hh)
        else:
            e = 'route::%s<"%s">(%s)' % (v, p, hh)
        return r, e

    def decorate(self, o, e, n):
        """chains uses onto the expression"""
        o = copy.deepcopy(o)
        for _ in range(n):
            i = self.id()
            if R.random() < .55:
                k = R.randint(0, 2)
                o["states"] = [(k, i)] + o["states"]
                e += ".use_state(S<%d> { %d })" % (k, i)
            elif len(o["mws"]) < MAXM:
                o["mws"] = o["mws"] + [i]
                e += ".use(mark<%d> { %d })" % (R.randint(0, 1), i)
        return o, e

    def rebind(self, s, r):
        return {"method": r["method"], "path": s["path"] + r["path"], "states": r["states"] + s["states"],
                "mws": s["mws"] + r["mws"], "h": r["h"]}

    def step(self):
        r = R.random()
        pick_scope = lambda: R.choice(self.scopes[-3:] if R.random() < .6 else self.scopes)
        if not self.scopes or r < .12:
            o, e = self.new_scope()
            o, e = self.decorate(o, e, R.randint(0, 2))
            self.var("s", o, e)
        elif not self.routes or r < .25:
            o, e = self.new_route()
            o, e = self.decorate(o, e, R.randint(0, 2))
            self.var("r", o, e)
        elif r < .45:
            if R.random() < .7:
                o = pick_scope()
                o2, e = self.decorate(o, o["name"], R.randint(1, 2))
                self.var("s", o2, e)
            else:
                o = R.choice(self.routes)
                o2, e = self.decorate(o, o["name"], R.randint(1, 2))
                self.var("r", o2, e)
        else:
            s = pick_scope()
            t, e = copy.deepcopy(s), s["name"]
            ok = False
            for _ in range(R.randint(1, 3)):
                if R.random() < .55:
                    if R.random() < .5:
                        q, a = self.new_route()
                        q, a = self.decorate(q, a, R.randint(0, 2))
                    else:
                        q = R.choice(self.routes)
                        a = q["name"]
                    more = [self.rebind(t, q)]
                else:
                    q = pick_scope()
                    a = q["name"]
                    more = [self.rebind(t, x) for x in q["routes"]]
                if all(self.valid(x["path"]) and len(x["mws"]) <= MAXM + 2 and len(x["path"]) < 60 for x in more) \
                        and len(t["routes"]) + len(more) <= MAXR:
                    t["routes"] = t["routes"] + more
                    e += ".serve(%s)" % a
                    ok = True
                    if R.random() < .3:
                        t, e = self.decorate(t, e, 1)
            if ok:
                self.var("s", t, e)


def a_path(pattern):
    """a path that the pattern matches"""
    import re
    p = re.sub(r"\{.*?\}", lambda m: R.choice(["q", "long-value", "1"]), pattern)
    return re.sub(r"#.*$", lambda m: R.choice(["rest", "re/st", "r/e/s/t"]), p)


def wants(s, e2e):
    t = []
    for r in s["routes"]:
        st = [-1, -1, -1]
        for k, i in reversed(r["states"]):
            st[k] = i
        t.append('{ "%s", http::verb::%s, "%s", { %s }, { %s }, %d, "%s" }' % (
            s["name"], r["method"], r["path"], ", ".join(map(str, st)), ", ".join(map(str, r["mws"])), r["h"],
            a_path(r["path"])))
    return t


def clear(routes):
    """no two routes can match the same path in an unspecified order"""
    import re
    keys = [(r["method"] if False else 0, re.sub(r"\{.*?\}", "{}", re.sub(r"#.*", "#", r["path"]))) for r in routes]
    if len(set(keys)) != len(keys) or any("unknown" == r["method"] or not r["path"].startswith("/") for r in routes):
        return False
    return not any("{" in k or "#" in k for _, k in keys) or len(keys) == 1 or \
        len({k.split("/")[1] for _, k in keys}) == len(keys) and not any(k.split("/")[1][:1] in "{#" for _, k in keys)


with open(out, "w") as f:
    f.write('''#include "c30_table.hpp"
using namespace fitoria;
using namespace fitoria::web;
namespace c30 {
namespace {
''')
    entries, done = [], 0
    while done < N + E:
        e2e = done >= N
        g = Gen(e2e)
        for _ in range(R.randint(6, 16)):
            g.step()
        full = [s for s in g.scopes if s["routes"]]
        if e2e:
            full = [s for s in full if clear(s["routes"])][-1:]
        if not full or (e2e and len(full[0]["routes"]) < 2):
            continue
        text = "\\n".join(g.lines).replace('"', '\\"')
        ex = []
        f.write(("http_server p%d(net::io_context& ioc)\n{\n" if e2e else "std::vector<made> p%d()\n{\n  std::vector<made> v;\n") % done)
        for l in g.lines:
            f.write("  [[maybe_unused]] " + l + "\n")
        if e2e:
            s = full[0]
            ex = wants(s, True)
            f.write("  return http_server::builder(ioc).serve(%s).build();\n}\n" % s["name"])
        else:
            for s in R.sample(full, min(4, len(full))):
                ex += wants(s, False)
                f.write('  inspect(v, "%s", %s.routes());\n' % (s["name"], s["name"]))
            f.write("  return v;\n}\n")
        entries.append('{ "%s", %s, { %s } }' % (text, "nullptr, p%d" % done if e2e else "p%d, nullptr" % done, ",\n      ".join(ex)))
        done += 1
    f.write('''}
const std::vector<program>& table%d()
{
  static const std::vector<program> v {
''' % part)
    f.write(",\n".join("    " + e for e in entries))
    f.write("\n  };\n  return v;\n}\n}\n")
