from .. import gen, messy, model, sut

PLAIN_TOKENS = dict(w=20, odd=2, s=0, c=0, l=0, r=0, B=0, br=0, cl=0, il=0)
# Only the kinds of sections that are named
NO_BLOCKS = dict(p=0, h=0, s=0, hr=0, f=0, i=0, q=0, u=0, o=0, t=0, d=0)


def only(**weights):
    return dict(NO_BLOCKS, **weights)


def tokens(**weights):
    return dict(PLAIN_TOKENS, **weights)


class Check:
    assumptions = ()
    quick = 400
    thorough = 12000

    def labels(self, case):
        return ()

    def nontrivial(self, case):
        return True


def kinds(blocks, out=None):
    """The kinds of sections in a document, with containers' content"""
    out = [] if out is None else out
    for block in blocks:
        out.append(block["t"])
        if block["t"] == "q":
            kinds(block["b"], out)
        elif block["t"] in ("u", "o"):
            for item in block["items"]:
                kinds(item, out)
    return out


def depth(blocks):
    result = 0
    for block in blocks:
        if block["t"] == "q":
            result = max(result, 1 + depth(block["b"]))
        elif block["t"] in ("u", "o"):
            result = max([result] + [1 + depth(item) for item in block["items"]])
    return result


def draw_opts(d, **kw):
    o = gen.Opts(**kw)
    if "max_blocks" not in kw:
        o.max_blocks = d.c([1, 2, 3, 4, 6])
    if "depth" not in kw:
        o.depth = d.c([1, 2, 2, 3])
    if d.p(1, 25):
        o.big = d.c(gen.BIG)
        if o.big == "depth" and o.depth:
            o.depth = d.c([4, 5, 6, 8])
    return o


def draw_style(d, **kw):
    return messy.Style(neat=d.p(1, 4), **kw)


def draw_case(d, o, style=None):
    doc = gen.document(d, o)
    style = style or draw_style(d)
    return {
        "doc": doc,
        "src": messy.spell(d, style, doc, gen.ends_open(doc)),
        "width": gen.width(d),
    }


def show(text, limit=1200):
    text = repr(text)
    return text if len(text) <= limit else text[:limit] + "..."


def differ(expected, got, what):
    """What is different between two texts"""
    if expected == got:
        return None
    a, b = expected.split("\n"), got.split("\n")
    at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return (
        f"{what}\n"
        f"first difference is on line {at + 1}: expected "
        f"{show(a[at] if at < len(a) else None)}, got "
        f"{show(b[at] if at < len(b) else None)}\n"
        f"expected: {show(expected)}\n"
        f"got:      {show(got)}"
    )


def against_model(case):
    out = sut.must(case["src"], case["width"])
    return differ(
        model.canonical(case["doc"], case["width"]),
        out,
        f"{show(case['src'])} with a line length of {case['width']} isn't formatted as "
        f"documented",
    )


class ModelCheck(Check):
    """Everything a document of these sections may become is given by the model"""

    opts = {}

    def options(self, d):
        return dict(self.opts)

    def style(self, d):
        return draw_style(d)

    def gen(self, d):
        return draw_case(d, draw_opts(d, **self.options(d)), self.style(d))

    def judge(self, case):
        return against_model(case)

    def labels(self, case):
        yield f"width {'inf' if case['width'] == 'inf' else '<20' if case['width'] < 20 else '>=20'}"
        yield f"depth {depth(case['doc'])}"
        for kind in set(kinds(case["doc"])):
            yield f"has {kind}"
