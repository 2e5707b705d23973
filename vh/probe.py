"""Plugins of the harness that look at the path between the plugins of the code under test."""


def path_probe():
    from sudachipy.plugin.path_rewrite import PathRewritePlugin

    class PathProbe(PathRewritePlugin):
        def set_up(self, grammar):
            self.grammar = grammar

        def rewrite(self, text, path, lattice):
            self.text = text
            self.nodes = [Seen(n) for n in path]
            self.lattice = {}
            for e in range(1, len(text.get_byte_text()) + 1):
                for n in lattice.get_nodes_with_end(e):
                    self.lattice.setdefault((n.get_begin(), n.get_end()), []).append(Seen(n))

    return PathProbe()


class Seen:
    """What a node of a path says, copied."""
    __slots__ = ('begin', 'end', 'norm', 'surface', 'dform', 'reading', 'pos', 'oov', 'wid', 'dic', 'cost', 'units', 'syn')

    def __init__(self, n):
        wi = n.get_word_info()
        self.begin, self.end = n.get_begin(), n.get_end()
        self.norm, self.surface, self.dform, self.reading, self.pos = wi.normalized_form, wi.surface, wi.dictionary_form, wi.reading_form, wi.pos_id
        self.oov, self.wid, self.dic, self.cost = bool(n.is_oov()), n.get_word_id(), n.get_dictionary_id(), n.get_path_cost()
        self.units = (list(wi.a_unit_split), list(wi.b_unit_split))
        self.syn = list(wi.synonym_group_ids)

    def same(self, o):
        return all(getattr(self, f) == getattr(o, f) for f in self.__slots__)

    def key(self):
        return tuple(repr(getattr(self, f)) for f in self.__slots__)

    def __repr__(self):
        return '{}..{} {} ({}{})'.format(self.begin, self.end, self.surface, self.norm, ', unknown' if self.oov else '')
