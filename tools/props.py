# Which contract units and harnesses decide each property.
O = "reoracle.go.txt"
I = "ixhelp.go.txt"
H = "htmlsafe.go.txt"


def hx(pkg, test, shared, run, budget, pkgname=None, **kw):
    """harness entry: the test file and shared sources, all placed in pkg"""
    files = {"%s/verif_%s_test.go" % (pkg, test[:-len("_test.go")]): test}
    for s in shared:
        files["%s/verif_x%s_test.go" % (pkg, s.split(".")[0])] = s
    d = dict(pkg=pkg, files=files, run=run, budget=budget, **kw)
    if pkgname:
        d["pkgname"] = pkgname
    return d


READ = ["index.(*deltaReader)." + f for f in ("init", "clearBits", "next", "next64")]  # the posting-list decoder

PROPS = {
    "C01": dict(units=[("q", "own"), ("qa", "own")], harness=[hx("index", "c01_test.go", [O], "^TestVerifC01$", 8)]),
    "C02": dict(units=[("find", "own"), ("post", ["own"] + READ)], harness=[hx("index", "c02_test.go", [O, I], "^TestVerifC02$", 8)]),
    "C03": dict(units=[("buf", None), ("delta", "own")], harness=[hx("index", "c03_test.go", [O], "^TestVerifC03$", 8)]),
    "C04": dict(units=[("buf", None), ("find", "own"), ("postw", "own")], harness=[hx("index", "c04_test.go", [O, I], "^TestVerifC04$", 8)]),
    "C05": dict(units=[("buf", None), ("pathio", "own")], harness=[hx("index", "c05_test.go", [O, I], "^TestVerifC05$", 8)]),
    "C06": dict(units=[("add", None)], harness=[hx("index", "c06_test.go", [O, I], "^TestVerifC06$", 15)]),
    "C07": dict(units=[("sort", None), ("heap", "own"), ("mpost", "own"), ("postw", "own"), ("buf", None)],
                harness=[hx("index", "c07_test.go", [O, I], "^TestVerifC07$", 10)]),
    "C08": dict(units=[("path", None), ("pathio", "own"), ("postw", "own"), ("buf", None), ("post", READ)], harness=[hx("index", "c08_test.go", [O, I], "^TestVerifC08$", 12)],
                level="other", note="proved: path order and containment, path reader and writer, posting reader and writer, buffers; bounded: Merge's own composition of them (replay harness)"),
    "C09": dict(units=[("utf", None)], harness=[hx("regexp", "c09_test.go", [O], "^TestVerifC09$", 12)]),
    "C10": dict(units=[("mat", "own"), ("set", None)], harness=[hx("regexp", "c10_test.go", [O], "^TestVerifC10$", 12)]),
    "C11": dict(units=[("ctx", None)], harness=[hx("regexp", "c11_test.go", [O], "^TestVerifC11$", 12)],
                level="other", note="proved: line boundary search and newline counting; bounded: Grep.Reader itself (replay harness)"),
    "C12": dict(units=[("ctx", None)], harness=[hx("regexp", "c12_test.go", [O], "^TestVerifC12$", 10)]),
    "C13": dict(units=[("path", None)], harness=[hx("index", "c13_test.go", [O, I], "^TestVerifC13$", 8)]),
    "C14": dict(units=[("html", None)], harness=[hx("regexp", "c14_test.go", [O, H], "^TestVerifC14$", 8),
                                                 hx("cmd/csweb", "c14web_test.go", [O, H], "^TestVerifC14", 8, pkgname="main")]),
    "C15": dict(units=[("reidx", None), ("reidxw", "own"), ("buf", ["index.(*Buffer).Flush", "index.(*Buffer).Write", "index.(*Buffer).WriteString"])],
                harness=[hx("cmd/cindex", "c15_test.go", [O], "^TestVerifC15$", 20, pkgname="main")]),
    "C16": dict(units=[("set", None)], harness=[hx("sparse", "c16_test.go", [], "^TestVerifC16$", 6)]),
    "C17": dict(units=[("find", "own"), ("post", ["own"] + READ), ("path", None), ("pathio", "own")], harness=[hx("cmd/cindex", "c17_test.go", [O], "^TestVerifC17$", 20, pkgname="main")],
                level="other", note="proved: posting-list lookup, list decoding, name lookup and path order, each for every input; bounded: their composition by the two commands, the tree walk and zip expansion (replay harness)"),
}
NA = {}
