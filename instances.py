"""What each property's check runs: harness entry points, their parameters and the bounds they decide.

entry, params: harness entry point and its parameters; covers: cover codes that must be reached (default [1]);
optional: deeper than the property's core bound, a lack of an answer is reported but is no failure; tiers: where it runs;
bounds: what it decides.
"""
import json, os, random
ASSUMPTIONS = [
    "rustc's LLVM IR (release profile, LTO, overflow checks and debug assertions on) is what is executed; code generation below the IR is trusted",
    "the executor's semantics of LLVM IR, its bit-blaster and the SAT solver; cross-checked by concrete runs against the native build",
    "memory allocation never fails; RandomState seeds are fixed bytes",
]
# a finding is reported when the check reaches its cover code
COVER = {"C13": 900}
FINDINGS = {}
for _f in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")))["findings"]:
    FINDINGS.setdefault(_f["property"], []).append(dict(cover=COVER[_f["property"]], what=_f["what"]))

T = ("thorough",)
Q = ("quick", "thorough")
ALL = 0x10FFFF


def I(entry, *params, bounds="", **kw):
    return dict(entry="h_" + entry, params=list(params), bounds=bounds, **kw)


def opt(*a, **kw):
    return I(*a, optional=True, **kw)


# Cards some of which are given ("??" is any other card), for spaces that are decided whatever the code does with the cards
SOME = {
    5: ["?? ?? As Ks Qs", "Ts ?? Qs Ks ??", "9h 9d ?? ?? 2c", "?? 5h 4h ?? 2h", "Ah ?? ?? ?? 2h", "?? ?? ?? 7d 7c", "?? ?? ?? 8c 9c", "4d ?? 4h ?? Kc", "?? ?? ?? Qd 3s", "6d ?? 8h ?? ??", "2c ?? ?? 3s ??", "Jc Kc ?? ?? ??", "?? Tc ?? Td ??"],
    6: ["?? ?? Ts Js Qs Ks", "9s ?? Js Qs Ks ??", "?? 2h 3h 4h 5h ??", "?? ?? ?? 6c 7c 8c", "?? ?? 9h 9d 4c 4s", "8c 8d 8h ?? ?? 2s", "Ad ?? Qh ?? ?? Kh", "2d 4d ?? 7d ?? Jd", "?? ?? ?? 3d 3h Ts"],
    7: ["?? 9d Td Jd Qd 2c ??", "?? ?? 5h 5d 5c 9h 9d", "2h 3h ?? 7h 8h ?? Kc", "?? ?? ?? 2c 3d 4h 5s", "Kc Kd ?? Qc Qd ?? 2h", "?? ?? ?? Js Jh Td 9c", "As 5c ?? 3c 4c ?? 6d", "7s 6s 5s ?? Kd ?? 2s"],
    8: ["3d 4d ?? 6d 9s Ts ?? Qs", "?? ?? As Ah Kd Kc Qs Qh", "2c 3c 4c 5c ?? ?? 8h 9h", "?? ?? ?? 7h 7d 7c Ks 2d", "Ac 2d 3d Kd 9d ?? Qd ??"],
    9: ["As Ks ?? 9h 9d 2c 3d 4h ??", "2c 2d 2h 3c 3d ?? ?? 4h 4s", "6h 7h 8d 9h Td 2s ?? ?? 3s", "2s Ks 3h Jh 4c 9c 5d ?? ??"],
    10: ["2h 4h 6h 8h 2s 4s 6s 8s ?? ??", "?? Ts 9c 8d 7h 5s 4c 3d 2h ??", "2s 3s 4h 5h 7c 8c Td 2d ?? ??", "?? Ah 9h 8h 7h 2s 3c 4d 9s ??"],
    11: ["2c 3d 5h 7s 9c Jd Kh ?? ?? 4s 6c", "Ad Kd Qd Jd 2s 2h 2c ?? 7s ?? 9c", "2s 3s 4h 5h 7c 8c Td ?? 4d 6d ??", "?? ?? 2c 3c Jd Qd 4h 6s 5s 7s 8s"],
    12: ["As Ah Ad Kc Kd Qs Qh Jd ?? Th 9c ??"],
    13: ["?? Ac 2d 3h 4s 5c 7d 8h 9s Tc Qd Kh ??"],
}


def some(entry, sizes, less=0, take=99, **kw):
    """The entry on the cards above; it takes the number of cards less `less` as its first parameter."""
    out = []
    for n in sizes:
        for s in SOME[n][:take]:
            codes = [14 * "cdhs?".index(x[1]) + "23456789TJQKA?".index(x[0]) for x in s.split()]
            out.append(I(entry, n - less, 2, *codes, bounds=f"{s} ({n} cards, ?? any)", secs=400, **kw))
    return out


def wide(entry, *cases, less=0, **kw):
    """The entry on many cards: weak ones (30 cards of three suits, no four of a rank, no straight flush), with arbitrary ones at the places given."""
    out = []
    for n, *at in cases:
        r = random.Random(n)
        d = [14 * s + k for s in r.sample(range(4), 3) for k in (0, 1, 2, 5, 6, 7, 9, 10, 11, 12)]
        r.shuffle(d)
        d = d[:n - len(at)]
        for a in at:
            d.insert(a, 69)
        out.append(I(entry, n - less, 2, *d, bounds=f"{n} cards, given ones and any cards at places {at}", secs=300, optional=True, **kw))
    return out


def given(entry, *hands, **kw):
    """The entry on hands all given (what varies is something else, such as a schedule)."""
    return [I(entry, len(h.split()), 2, *[14 * "cdhs".index(x[1]) + "23456789TJQKA".index(x[0]) for x in h.split()], bounds=h, secs=400, **kw) for h in hands]


def repeats(cards, pattern):
    """An error about the cards, "??" arbitrary, at the places the pattern gives."""
    codes = [14 * "cdhs?".index(x[1]) + "23456789TJQKA?".index(x[0]) for x in cards.split()]
    return I("c19_some", len(codes), 2, *codes, *[0] * (18 - len(codes)), len(pattern), int(pattern[:9][::-1]), int(pattern[9:][::-1] or "0"), bounds=f"an error about {cards} (?? any) at the places {pattern}", secs=400)


INSTANCES = {
    "C01": some("c01_some", [5]) + [opt("c01", bounds="every hand of five distinct cards in every order")],
    "C02": some("c02_ladder", [5]) + [opt("c02", bounds="every pair of hands of five distinct cards"),
            opt("c02_ladder", bounds="every hand of five distinct cards against one hand of each of the 7462 strengths")],
    "C03": wide("c03_some", (14, 0, 13), (16, 14, 15), (20, 19), (24, 0), (30, 29)) + some("c03_some", range(6, 14)) + [opt("c03", 6, bounds="every six distinct cards in every order, all 6 subsets"),
            opt("c03", 7, bounds="every seven distinct cards in every order, all 21 subsets"),
            opt("c03", 8, bounds="every eight distinct cards in every order, all 56 subsets"), opt("c03", 9, tiers=T, hard_secs=1500, bounds="every nine distinct cards in every order, all 126 subsets")],
    "C04": wide("c04_some", (14, 13), (16, 8), (20, 19)) + some("c04_some", range(5, 12)) + [opt("c04", n, bounds=f"every {n} distinct cards; first two swapped and rotation by one, which generate all orders", tiers=T if n > 6 else Q) for n in (5, 6, 7)],
    "C05": wide("c05", (14, 6), (16, 15), (20, 0)) + some("c05", range(5, 12)) + [opt("c05", n, bounds=f"every {n} distinct cards; the three swaps of neighbouring suits, which generate all relabellings", tiers=T if n > 6 else Q) for n in (5, 6, 7)],
    "C06": [I("c06_dup", n, bounds=f"every slice of {n} cards in which some card repeats, every pair of places") for n in (2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 20)]
         + [opt("c06_dup", n, bounds=f"every slice of {n} cards in which some card repeats, every pair of places") for n in (30, 40)]
         + some("c06_distinct", range(5, 14)) + [I("c06_distinct", n, covers=[1 if n > 4 else 2], bounds=f"every slice of {n} distinct cards", optional=n > 4) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8)]
         + wide("c06_distinct", (16, 15), (20, 3), (30, 29)) + [opt("c06_distinct", 52, 2, *[14 * k + r for r in range(13) for k in range(4)], secs=300, bounds="the whole deck")]
         + [I("c06_long", n, p, q, bounds=f"{n} cards: the deck over and over, with one arbitrary card at places {p} and {q}") for n, p, q in ((20, 0, 19), (51, 17, 18), (52, 0, 51), (52, 50, 51), (53, 0, 52), (60, 3, 55))],
    "C07": [I("c07_pairs", bounds="every pair of the 7462 evaluations, and BEST and WORST with each"),
            I("c07_triples", bounds="every triple of the 7462 evaluations and the constants")],
    "C08": wide("c08_more", (14, 1, 13), (20, 19), (24, 23)) + some("c08_more", range(5, 12)) + [opt("c08", bounds="every hand of five distinct cards"),
            opt("c08_more", 6, bounds="every six distinct cards"), opt("c08_more", 7, bounds="every seven distinct cards"), opt("c08_more", 8, tiers=T, bounds="every eight distinct cards")],
    "C09": [I("c09", bounds="every one of the 7462 evaluations and the constants"),
            *some("c09_hand", range(5, 9)), opt("c09_hand", 5, bounds="every hand of five distinct cards"), opt("c09_hand", 6, bounds="every six distinct cards"), opt("c09_hand", 7, bounds="every seven distinct cards"), opt("c09_hand", 8, tiers=T, bounds="every eight distinct cards")],
    "C10": [I("c10_steps", bounds="every evaluation and the next stronger one"), I("c10_values", bounds="every pair of class values"),
            *some("c10_hand", range(5, 9)), opt("c10_hand", 6, bounds="every six distinct cards: the class goes with the strength"), opt("c10_hand", 7, bounds="every seven distinct cards: the class goes with the strength"), opt("c10_hand", 8, tiers=T, bounds="every eight distinct cards: the class goes with the strength")],
    "C11": [I("c11", bounds="every one of the 7462 evaluations and the constants"), I("c11_class", bounds="every class value")],
    "C12": [I("c12", bounds="every pair of cards")],
    "C13": [I("c13", bounds="every pair of cards and of ranks"), I("c13_triples", bounds="every triple of cards")],
    "C14": [I("c14", n, ALL, covers=[1, 2] if n == 2 else [2], bounds=f"every string of {n} Unicode characters") for n in (0, 1, 2, 3, 4, 5, 6, 8, 12)]
         + [I("c15_long", n, p, ALL, bounds=f"{n} characters, the one at place {p} any Unicode character") for n, p in ((5, 4), (6, 1), (66, 65), (258, 257))]
         + [I("c14_chars", covers=[1, 2, 3], bounds="every pair of Unicode characters")],
    "C15": [I("c15", n, ALL, covers=[2, 3] if n == 2 else [1], bounds=f"every string of {n} Unicode characters") for n in (0, 1, 2, 3, 4, 5, 6)]
         + [opt("c15", n, ALL, tiers=T, bounds=f"every string of {n} Unicode characters") for n in (7, 8)]
         + [I("c15_long", n, p, ALL, bounds=f"{n} characters, the one at place {p} any Unicode character") for n, p in ((3, 2), (4, 1), (6, 0), (8, 5), (16, 15), (130, 129), (258, 1), (258, 200))]
         + [I("c15_chars", covers=[1, 2], bounds="every pair of Unicode characters")],
    "C16": [I("c16", bounds="every card, rank and suit")],
    "C17": [I("c17_list", 0, 0, 0, 0, bounds="the empty list"),
            I("c17_list", 1, 2, 0, 127, bounds="one string of two ASCII characters"), I("c17_list", 2, 22, 0, 127, bounds="two strings of two ASCII characters"),
            I("c17_list", 1, 1, 0, ALL, bounds="one string of one Unicode character"),
            I("c17_list", 2, 22, 1, 0, bounds="a list of two, its first string any two characters of a pool of 40"), I("c17_list", 3, 222, 1, 0, bounds="a list of three, its first string any two characters of a pool of 40"),
            I("c17_list", 4, 2222, 1, 0, bounds="a list of four, its first string any two characters of a pool of 40"),
            I("c17_list", 3, 123, 1, 0, bounds="a list of strings of 3, 2 and 1 characters"), I("c17_list", 2, 20, 1, 0, bounds="a list with an empty string"),
            I("c17_more", 2, 22, 1, 127, bounds="two strings, consumed by nth, last, count and by_ref"), I("c17_more", 3, 222, 1, 127, bounds="three strings, consumed by nth, last, count and by_ref"),
            I("c17_words", 1, ALL, 1, covers=[1, 2], bounds="a text of one Unicode character"), I("c17_words", 4, ALL, 65, 115, 1, 75, covers=[2, 3], bounds="a text of four characters, one of them any Unicode character"),
            I("c17_words", 3, 0, covers=[1, 2, 3], bounds="a text of three characters of a pool of 40 (cards' characters, white space of all kinds, look-alikes)"),
            I("c17_words", 6, 0, 0, 65, 115, 0, 75, 104, covers=[2, 3], bounds="two cards, characters of the pool before and between"),
            I("c17_words", 6, 0, 65, 115, 0, 75, 104, 0, covers=[2, 3], bounds="two cards, characters of the pool between and after"),
            I("c17_words", 6, 0, 65, 115, 0, 0, 75, 104, covers=[2, 3], bounds="two cards, two characters of the pool between")],
    "C18": [I("c18", n, ALL, bounds=f"every error about {n} Unicode characters, with any incorrect character") for n in (0, 1, 2, 3)]
         + [I("c18_long", n, p, ALL, bounds=f"errors about {n} characters of all widths, the one at place {p} any Unicode character") for n, p in ((7, 6), (9, 0), (10, 5), (12, 3), (64, 63), (100, 40), (118, 2))] + [opt("c18", n, ALL, bounds=f"every error about {n} Unicode characters") for n in (4, 5)] + [opt("c18", n, ALL, tiers=T, bounds=f"every error about {n} Unicode characters") for n in (6, 7)],
    "C19": [I("c19", n, k, bounds=f"every error about {n} cards of {k}") for n, k in ((2, 3), (3, 3), (4, 3), (5, 4), (6, 3), (5, 5), (6, 4), (7, 3))]
         + [opt("c19_sym", n, p, bounds=f"errors about {n} arbitrary cards equal as in the pattern {p:0{n}d}") for n, p in ((2, 0), (3, 100), (3, 10), (3, 0), (4, 1010), (4, 1100), (4, 110))]
         + [repeats(*x) for x in (("?? ??", "010"), ("?? ??", "0011"), ("?? ??", "10010110"), ("As ?? ?? 2c", "01233210"), ("?? As Kd ?? Ts", "0123401234"), ("?? 2c 2d 2h 2s ??", "001122334455"),
                                  ("Ah ?? Kh Qh ?? Jh", "012345543210012"), ("?? 9c ?? 8d 7h 6s 5c 4d", "0123456701234567"), ("?? ?? As Ks", "000123"), ("?? 3c 4c 5c 6c 7c 8c 9c ?? Jc", "987654321009876541"))]
         + [I("c19_size", 100, bounds="sizes 0 to 100")],
    "C20": [I("c20", bounds="any card, any place, by collecting, stepping, for_each, count and nth")],
    "C21": [I("c21", p, 2, s, 255, low, bounds=f"draws {p} and {p + 1} arbitrary in their {'low' if low else 'top'} 8 bits, the others fixed (sequence {s})", secs=400)
            for s, r, low in ((15, range(0, 60, 4), 0), (1, range(2, 74, 4), 0), (15, range(60, 70), 0), (1, range(74, 77), 0), (15, range(2, 70, 16), 1)) for p in r]
         + [opt("c21", p, 2, s, 255, low, tiers=T, bounds=f"draws {p} and {p + 1} arbitrary in their {'low' if low else 'top'} 8 bits, the others fixed (sequence {s})", secs=400)
            for s, r, low in ((15, range(2, 60, 4), 0), (1, range(0, 74, 4), 0), (15, range(0, 70, 4), 1)) for p in r] + [I("c21_thread", repeat=50, bounds="the thread's own generator, its seed fixed")],
    "C22": some("c22_some", range(5, 8)) + some("c22_default_some", range(5, 8), take=4) + some("c22_long", range(5, 8), take=1) + [opt("c22", bounds="every five cards after every other five cards, on a second evaluator and a copy"), opt("c22_errors", bounds="every five cards after failed evaluations and twice in a row"),
            opt("c22_default", bounds="every five cards on a default evaluator")],
    "C23": [I("c23", *l, bounds=f"slices of {l} arbitrary cards") for l in ((0, 0, 0, 0), (1, 1, 1, 1), (2, 3, 0, 1), (0, 2, 1, 0), (5, 0, 0, 2), (2, 3, 1, 1), (0, 0, 3, 0), (7, 1, 2, 9), (12, 9, 14, 17), (52, 52, 0, 52))],
    "C25": [I("c25_payout", bounds="every class value and every wager from 0 to 5")]
         + [I("c25_swap", k, repeat=20, bounds=f"{k} cards at any different places, in any order, exchanged; the generator's seed fixed") for k in range(6)],
    "C27": given("c27", "2s 4h 6h 8d Tc", "9h 9d 4c 4s Kd", "2d 5d 7d Jd Ad", "Th Jh Qh Kh Ah", "7c 7d 7h 2s 2c", "As 2d 3h 4c 5s", "8c 9d Jh Jd 2s Kc", "3h 5h 8h Th Kh 2c 2d", "2c 3d 5h 7s 9c Jd Kh 4s", "2h 4h 6h 8h Th Qh 3s 5s 7s", "2h 4h 6h 8h 2s 4s 6s 8s Ac Ad")
         + some("c27", range(5, 10)),
    "C24": wide("c24", (14, 5, 13), (16, 14, 15), (20, 19), (24, 0), (31, 30), less=1) + some("c24", range(6, 13), less=1) + [opt("c24", n, bounds=f"every {n} distinct cards and every further one", tiers=T if n > 6 else Q, hard_secs=3000) for n in (5, 6, 7)],
}
