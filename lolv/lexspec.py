"""The reference tokenizer: all the forms a token can take, each with what may follow it.

An alternative is a list of items: elements of the text (text.py) and marks ('mark', name):
  c0 / c1   start / end of the token's content        e    end of the token
  n         end of a number that does not fit (its first character becomes a symbol)
The elements after mark e are what is known about the text that follows; the last one is the rest."""
from .text import ALL, DIGIT, ELL, IDENT, NL, WS, bit, bits, ch, run

WS_RUN = run(((WS,),), mn=1)
LITERALS = {"WIN": ("Boolean", True), "FAIL": ("Boolean", False), "NOOB": ("NOOB",)}
COMMENT = ("BTW", "OBTW")
DOT, SIGN, QUOTE, COLON = bits("."), bits("+-"), bits('"'), bits(":")
END = ("end",)


def rest(first=None, flags=()):
    return run(((ALL,),), first=first, flags=flags)


def M(n):
    return ("mark", n)


def lit(s):
    return [ch(bit(ord(c))) for c in s]


def digits(mn=0):
    return run(((DIGIT,),), mn=mn)


class Alt:
    __slots__ = ("label", "items", "kind", "group", "fact", "then")

    def __init__(self, label, items, kind, group, fact=None, then="any"):
        self.label = label
        self.items = items
        self.kind = kind
        self.group = group
        self.fact = fact
        self.then = then


class Spec:
    def __init__(self, names):
        self.spell = {n.replace("_", " "): n for n in names}
        self.alternatives = []
        self.words()
        self.numbers()
        self.others()

    def add(self, label, items, kind, group, **kw):
        self.alternatives.append(Alt(label, items, kind, group, **kw))

    # ---- words
    def kind_of(self, word):
        if word in LITERALS:
            return LITERALS[word], "literal"
        return ("Keyword", self.spell[word]), "keyword"

    def words(self):
        spell = {s for s in list(self.spell) + list(LITERALS) if s not in COMMENT}
        trie = {"": set()}
        for s in list(spell) + list(COMMENT):
            for i in range(len(s)):
                trie.setdefault(s[:i], set()).add(s[i])
                trie.setdefault(s[:i + 1], set())
        start = IDENT & ~DIGIT
        kids0 = 0
        for c in trie[""]:
            kids0 |= bit(ord(c))
        self.add("an identifier that begins like no keyword follows",
                 [M("c0"), ch(start & ~kids0), run(((IDENT,),)), M("c1"), M("e"), rest(ALL & ~IDENT)],
                 ("Identifier",), "identifier")
        for p in sorted(trie):
            if not p or p in COMMENT:
                continue
            if any(p.startswith(c) for c in COMMENT):
                continue
            kids = 0
            for c in trie[p]:
                kids |= bit(ord(c))
            # the token if the text goes on with nothing that continues p
            best = None
            for s in spell:
                if p.startswith(s) and (len(p) == len(s) or not IDENT >> ord(p[len(s)]) & 1):
                    if best is None or len(s) > len(best):
                        best = s
            # ... with a character that continues the last word of p
            more = IDENT & ~kids
            cont = best if best != p else None
            if cont is None and best == p:
                # a shorter spelling that ends before the last word
                for s in spell:
                    if s != p and p.startswith(s) and not IDENT >> ord(p[len(s)]) & 1 and \
                            (cont is None or len(s) > len(cont)):
                        cont = s
            word = p.split(" ")[0]
            shown = '"%s"' % p
            if " " in p:
                self.partial("%s follows, continued by a character that makes it no keyword" % shown, p, cont or None, word,
                             [ch(more), rest()])
                if best != p:
                    self.partial("%s follows, and no further word of a keyword" % shown, p, best, word,
                                 [rest(ALL & ~IDENT & ~kids)])
            else:
                self.add("an identifier that begins with %s follows" % shown,
                         [M("c0")] + lit(p) + [ch(more), run(((IDENT,),)), M("c1"), M("e"), rest(ALL & ~IDENT)],
                         ("Identifier",), "word" if any(p.startswith(s) for s in spell) else "identifier")
                if best != p:
                    self.add("the identifier %s follows" % shown,
                             [M("c0")] + lit(p) + [M("c1"), M("e"), rest(ALL & ~IDENT & ~kids)],
                             ("Identifier",), "word" if any(p.startswith(s) for s in spell) else "identifier")
            if best == p:
                k, g = self.kind_of(p)
                self.add("the word %s follows" % shown, lit(p) + [M("e"), rest(ALL & ~IDENT & ~kids)], k, g)

    def partial(self, label, p, best, word, tail):
        """The text starts with p, of which only best (a spelling) or its first word is a token."""
        w = best or word
        more = lit(p[len(w):])
        if best:
            k, g = self.kind_of(best)
            self.add(label, lit(w) + [M("e")] + more + tail, k, g)
        else:
            self.add(label, [M("c0")] + lit(w) + [M("c1"), M("e")] + more + tail, ("Identifier",), "identifier")

    # ---- numbers
    def numbers(self):
        notd = ALL & ~DIGIT
        notdd = notd & ~DOT
        for sign in (False, True):
            s = [ch(SIGN)] if sign else []
            sg = "signed " if sign else ""
            for ok in (True, False):
                for tail, what in (([rest(notdd)], ""), (lit("...") + [rest()], ", an ellipsis after it")):
                    if ok:
                        self.add("a %sinteger follows%s" % (sg, what),
                                 [M("c0")] + s + [ch(DIGIT), digits(), M("n"), M("c1"), M("e")] + tail, ("Int",), "number",
                                 fact=("i32", True))
                    elif sign:
                        self.add("a signed integer that is too large follows" + what,
                                 [M("c0")] + s + [M("c1"), M("e"), ch(DIGIT), digits(), M("n")] + tail, ("Symbol",),
                                 "number", fact=("i32", False))
                    else:
                        self.add("an integer that is too large follows" + what,
                                 [M("c0"), ch(DIGIT), M("c1"), M("e"), digits(), M("n")] + tail, ("Symbol",), "number",
                                 fact=("i32", False))
            d1 = [ch(DIGIT), digits()]
            self.add("a %sfloat follows" % sg, [M("c0")] + s + d1 + [ch(DOT), ch(DIGIT), digits(), M("c1"), M("e"), rest(notd)],
                     ("Float",), "number")
            self.add("a %sfloat that ends with its dot follows" % sg,
                     [M("c0")] + s + d1 + [ch(DOT), M("c1"), M("e"), rest(notdd)], ("Float",), "number")
            self.add("a %sfloat that ends with its dot follows, another dot after it" % sg,
                     [M("c0")] + s + d1 + [ch(DOT), M("c1"), M("e"), ch(DOT), rest(ALL & ~DOT)], ("Float",), "number")
            self.add("a %sfloat that begins with its dot follows" % sg,
                     [M("c0")] + s + [ch(DOT), ch(DIGIT), digits(), M("c1"), M("e"), rest(notd)], ("Float",), "number")
        self.add("a sign without a number follows", [M("c0"), ch(SIGN), M("c1"), M("e"), rest(notdd)], ("Symbol",), "number")
        self.add("a sign and a dot without a number follow",
                 [M("c0"), ch(SIGN), M("c1"), M("e"), ch(DOT), rest(notd)], ("Symbol",), "number")

    # ---- everything else
    def others(self):
        notd = ALL & ~DIGIT
        self.add("two dots follow", [M("c0"), ch(DOT), M("c1"), M("e"), ch(DOT), rest(ALL & ~DOT)], ("Symbol",), "punct")
        self.add("a dot follows", [M("c0"), ch(DOT), M("c1"), M("e"), rest(notd & ~DOT)], ("Symbol",), "punct")
        self.add("three dots follow", lit("...") + [M("e"), rest()], ("Ellipsis",), "punct")
        self.add("the ellipsis character follows", [ch(ELL), M("e"), rest()], ("Ellipsis",), "punct")
        for c, n in ((",", "Comma"), ("!", "ExclamationMark"), ("?", "QuestionMark")):
            self.add("%r follows" % c, lit(c) + [M("e"), rest()], (n,), "punct")
        self.add("'Z follows", lit("'Z") + [M("e"), rest()], ("BukkitSlotAccess",), "punct")
        self.add("an apostrophe without Z follows", [M("c0")] + lit("'") + [M("c1"), M("e"), rest(ALL & ~bits("Z"))],
                 ("Symbol",), "punct")
        body = run(((ALL & ~QUOTE & ~COLON,), (COLON, ALL)))
        self.add("a string follows", [ch(QUOTE), M("c0"), body, M("c1"), ch(QUOTE), M("e"), rest()], ("String",), "string")
        self.add("a string that is not closed follows", [ch(QUOTE), M("c0"), body, M("c1"), M("e"), END], ("String",), "string")
        self.add("a string that is not closed and ends with a colon follows",
                 [ch(QUOTE), M("c0"), body, ch(COLON), M("c1"), M("e"), END], ("String",), "string")
        line = run(((ALL & ~NL,),))
        self.add("a comment to the end of the line follows", lit("BTW") + [M("c0"), line, M("c1"), M("e"), ch(NL), rest()],
                 ("CommentSingleLine",), "comment")
        self.add("a comment to the end of the text follows", lit("BTW") + [M("c0"), line, M("c1"), M("e"), END],
                 ("CommentSingleLine",), "comment")
        inner = run(((ALL,),), flags=("TLDR",))
        self.add("a multi-line comment follows", lit("OBTW") + [M("c0"), inner, M("c1")] + lit("TLDR") + [M("e"), rest()],
                 ("CommentMultiLine",), "comment")
        self.add("a multi-line comment that is not closed follows", lit("OBTW") + [inner, M("e"), END], ("error",), "comment")
        special = WS | IDENT | SIGN | DOT | QUOTE | ELL | bits(",!?'")
        self.add("a character that starts no other token follows", [M("c0"), ch(ALL & ~special), M("c1"), M("e"), rest()],
                 ("Symbol",), "punct")
