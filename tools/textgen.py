"""Constants of the GenStr module."""


def tla_seq(b): return "<<" + ", ".join(str(x) for x in (b.encode("latin1") if isinstance(b, str) else b)) + ">>"


def tla_set(xs): return "{" + ", ".join(xs) + "}"


def chars(s): return tla_set(str(x) for x in sorted(set(s.encode("latin1") if isinstance(s, str) else s)))


def gen(alphabet, maxlen, seeds=(), edits=0, prefix="", edit_alphabet=None):
    return dict(Alphabet=chars(alphabet), MaxLen=maxlen, Prefix=tla_seq(prefix) if prefix else "<< >>",
                Seeds=tla_set(tla_seq(s) for s in seeds), MaxEdits=edits,
                EditAlphabet=chars(edit_alphabet or alphabet))
