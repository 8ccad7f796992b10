"""A reference model of the Tokenizer: which words and stems are known, which tokens a text yields."""
import re


class Boom(Exception):
    pass


class Model:
    def __init__(self, lower, split, stop, stem):
        self.lower, self.split, self.stop, self.stem = lower, split, set(stop), stem
        self.reset()

    def reset(self):
        self.word = {}  # known word -> token (its stem)
        self.tokens = set()  # tokens that have an id
        self.ids = {}  # id -> token, as observed
        self.size = 0

    def mode(self, update):
        """The effective mode of a call made now."""
        return (not self.word) if update == "if_empty" else update

    def begin(self, upd, allow_empty):
        if allow_empty and upd is True and "" not in self.word:
            self.word[""] = ""
            self.tokens.add("")

    def step(self, text, upd, allow_empty):
        if self.lower:
            text = text.lower()
        words = list(self.split(text))
        if allow_empty and not words:
            words = [""]
        out = []
        for w in words:
            if w in self.word:
                out.append(self.word[w])
                continue
            if w in self.stop:
                continue
            t = self.stem(w) if self.stem else w
            if upd is True or (upd is False and self.stem and t in self.tokens):
                self.word[w] = t
                self.tokens.add(t)
                out.append(t)
        if not out and allow_empty and "" in self.word:
            out = [self.word[""]]
        return out
