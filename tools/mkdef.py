#!/usr/bin/env python3
"""Writes the stand-in code tables that /repo/build.rs reads (shadow/grib/def).
The real ones are git submodules which are absent in this sandbox.  Every description names
its own table and code, so that any mix-up between tables or codes is visible."""
import csv, os, sys
ROOT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(__file__), "..", "shadow", "grib")
CCT, G2 = os.path.join(ROOT, "def/CCT"), os.path.join(ROOT, "def/GRIB2")
os.makedirs(CCT, exist_ok=True); os.makedirs(G2, exist_ok=True)
HDR = "Title_en,SubTitle_en,CodeFlag,Value,MeaningParameterDescription_en,Note_en,UnitComments_en,Status".split(",")

def rows(tag, variant):
    """[(code-string, description)] for one table."""
    d = lambda c: f"{tag} c{c}"
    v = variant % 6
    if v == 0:
        r = [("0", d(0)), ("1", d(1)), ("2-4", "Reserved"), ("5", d(5)), ("6-7", d("6-7"))]
    elif v == 1:
        r = [("0", d(0)), ("1-2", "Reserved"), ("3", d(3))]
    elif v == 2:
        r = [("0-1", "Reserved"), ("2", d(2)), ("3", d(3)), ("4", f'{tag} "quoted", c4')]
    elif v == 3:
        r = [(str(i), d(i)) for i in range(12)]
    elif v == 4:
        r = [("0", d(0)), ("", "comment row without a code"), ("1", d(1)), ("2", ")"), ("3", d(3) + " \\ éà °")]
    else:
        r = [("0", d(0))] + [("1-9", "Reserved"), ("10", d(10)), ("11", d(11))]
    return r

TAIL = [("192-254", "Reserved for local use"), ("255", "Missing")]
def tail(r):
    last = int(r[-1][0].split("-")[-1])
    return r + [(f"{last+1}-191", "Reserved")] + TAIL

def write_g2(name, items):
    with open(os.path.join(G2, f"GRIB2_CodeFlag_{name}_CodeTable_en.csv"), "w", newline="") as f:
        w = csv.writer(f, lineterminator="\r\n")
        w.writerow(HDR)
        for title, sub, rs in items:
            for c, desc in rs:
                w.writerow([title, sub, c, "", desc, "", "", "Operational"])

# plain tables
for k, name in enumerate("0_0 1_1 1_2 1_3 1_4 4_3 4_4 4_5".split()):
    tag = "T" + name.replace("_", ".")
    if name == "4_5":
        r = [(str(i), f"{tag} c{i}") for i in range(30)] + [("30-99", "Reserved")] + \
            [(str(i), f"{tag} c{i}") for i in range(100, 120)] + [("120-159", "Reserved"), ("160", f"{tag} c160")]
    else:
        r = rows(tag, k)
    write_g2(name, [(f"Code table {name}", "", tail(r))])
# template tables are two octets wide; sparse beyond the dense head is avoided with Reserved rows
def tmpl(tag, codes, maxc=65535):
    r, nxt = [], 0
    for c in codes:
        if c > nxt: r.append((f"{nxt}-{c-1}" if c - 1 > nxt else f"{nxt}", "Reserved"))
        r.append((str(c), f"{tag} t{c}")); nxt = c + 1
    r.append((f"{nxt}-32767", "Reserved")); r.append(("32768-65534", "Reserved for local use")); r.append(("65535", "Missing"))
    return r
write_g2("3_1", [("Code table 3.1", "", tmpl("T3.1", [0, 1, 2, 3, 10, 20, 30, 31, 40, 41, 90, 101]))])
write_g2("4_0", [("Code table 4.0", "", tmpl("T4.0", [0, 1, 2, 8, 11, 12, 20, 40, 48, 60, 91]))])
write_g2("5_0", [("Code table 5.0", "", tmpl("T5.0", [0, 1, 2, 3, 4, 40, 41, 42, 50, 51, 61, 200]))])
disc = {0: "Meteorological products", 1: "Hydrological products", 2: "Land surface products",
        3: 'Satellite remote sensing products (formerly "Space products")', 4: "Space weather products",
        10: "Oceanographic products", 20: "Health and socioeconomic impacts"}
write_g2("4_1", [("Code table 4.1", f"Product discipline {d} - {n}", tail(rows(f"T4.1.{d}", i + 1)))
                 for i, (d, n) in enumerate(disc.items())])
cats = {0: list(range(0, 8)) + list(range(13, 21)) + [190, 191], 1: [0, 1, 2], 2: [0, 3, 4, 5],
        3: list(range(0, 7)), 4: list(range(0, 11)), 10: [0, 1, 2, 3, 4, 191], 20: [0, 1, 2]}
items, k = [], 0
for d, cs in cats.items():
    for c in cs:
        items.append(("Code table 4.2", f"Product discipline {d} - {disc[d]}, parameter category {c}: category {c} name",
                      [("0", f"T4.2.{d}.{c} c0"), ("30", "sparse")] if (d, c) == (3, 2) else tail(rows(f"T4.2.{d}.{c}", k))))
        k += 1
write_g2("4_2", items)
with open(os.path.join(CCT, "C00.csv"), "w", newline="") as f:
    w = csv.writer(f, lineterminator="\r\n")
    w.writerow(["GRIB version number", "BUFR version number", "CREX version number", "Effective date", "Status"])
    for a, b, c, d in [("0", "0", "0", "Experimental"), ("", "1", "", "1 January 1998"), ("1", "3", "2", "C0 v1"),
                       ("2", "4", "3", "C0 v2"), ("3", "5", "4", "C0 v3"), ("4-254", "6-254", "5-254", "Future versions"),
                       ("255", "255", "255", "Missing")]:
        w.writerow([a, b, c, d, "Operational"])
with open(os.path.join(CCT, "C11.csv"), "w", newline="") as f:
    w = csv.writer(f, lineterminator="\r\n")
    w.writerow(["CREX2", "GRIB2_BUFR4", "OriginatingGeneratingCentre_en", "Status"])
    for a, b in [("0", "WMO Secretariat"), ("", "Comment"), ("1", "Centre 1"), ("2", ")"), ("3", "Centre 3"), ("4-6", "Reserved"),
                 ("7", "Centre 7"), ("8-33", "Reserved for other centres"), ("34", "Centre 34"), ("35", ")"), ("36-37", "Centre 36-37"),
                 ("38-253", "Reserved for other centres"), ("254", "Centre 254"), ("255", "Reserved"), ("256", "Centre 256"), ("257", "Centre 257"),
                 ("258-65534", "Reserved for other centres"), ("65535", "Missing value"), ("Not applicable", "Not used")]:
        w.writerow(["", a, b, "Operational"])
