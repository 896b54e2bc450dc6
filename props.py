"""Per property: the configurations it runs in and the size of each tier."""


def P(variants, quick, thorough, **kw):
    d = dict(variants=variants, quick=dict(cases=quick[0], time=quick[1]), thorough=dict(cases=thorough[0], time=thorough[1]))
    if "fuzz" in kw:
        d["thorough"]["fuzz"] = kw.pop("fuzz")
    d.update(kw)
    return d


PROPS = {
    "C01": P("A,B", (4000000, 30), (100000000, 400), fuzz=120),
    "C02": P("A,B", (3000000, 30), (100000000, 400), fuzz=120),
    "C04": P("A,B", (1000000, 35), (50000000, 400), fuzz=120),
    "C03": P("A,B", (3000000, 40), (100000000, 400), fuzz=120),
    "C06": P("A,D,B", (1500000, 36), (60000000, 400), fuzz=120),
    "C07": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C05": P("A,B", (3000000, 30), (100000000, 400), fuzz=120),
    "C08": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C09": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C10": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C15": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C16": P("T", (400000, 45), (20000000, 500), concurrent=True, batch=200),
    "C17": P("T,A", (2000000, 44), (20000000, 400), concurrent=True, batch=200),
    "C18": P("A,B,D", (2500000, 36), (60000000, 400), fuzz=120),
    "C19": P("A,B", (2500000, 32), (60000000, 400), fuzz=120),
    "C21": P("A,C,B,D", (2500000, 40), (60000000, 400), fuzz=120),
    "C22": P("A,B,D", (2500000, 36), (60000000, 400), fuzz=120),
    "C23": P("A,B", (2500000, 36), (60000000, 400), fuzz=120),
    "C24": P("A,B", (2500000, 36), (60000000, 400), fuzz=120),
    "C25": P("A,B", (2500000, 36), (60000000, 400), fuzz=120),
    "C20": P("A,B", (2000000, 50), (60000000, 400), fuzz=60, hang=100),
    "C26": P("A,B,T", (1500000, 45), (60000000, 400), fuzz=120),
    "C14": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C13": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C12": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C27": P("A,B", (1500000, 36), (60000000, 400), fuzz=120),
    "C28": P("A,B", (1500000, 32), (60000000, 400), fuzz=120),
    "C29": P("A,T", (1500000, 36), (60000000, 400), concurrent=True),
    "C30": P("A,B", (1500000, 25), (60000000, 300), fuzz=120),
    "C31": P("A,M", (1500000, 32), (60000000, 400), fuzz=120),
    "C11": P("A,B", (2000000, 32), (60000000, 400), fuzz=120),
}
