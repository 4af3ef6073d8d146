"""Model of the rtree package: an index of boxes by identifier, with symbolic coordinates."""
import types


class RTreeError(Exception):
    pass


class Index:

    def __init__(self, *args, **kwargs):
        self.entries = []

    @staticmethod
    def _box(coordinates):
        x0, y0, x1, y1 = coordinates
        if x0 > x1 or y0 > y1:
            raise RTreeError('Coordinates must not have minimums more than maximums')
        return x0, y0, x1, y1

    def insert(self, id, coordinates, obj=None):
        self.entries.append((id, self._box(coordinates)))

    add = insert

    def delete(self, id, coordinates):
        box = self._box(coordinates)
        for i, (j, other) in enumerate(self.entries):
            if j == id and all(a is b or a == b for a, b in zip(box, other)):
                del self.entries[i]
                return

    def intersection(self, coordinates, objects=False):
        x0, y0, x1, y1 = self._box(coordinates)
        found = [i for i, (a0, b0, a1, b1) in self.entries if a0 <= x1 and x0 <= a1 and b0 <= y1 and y0 <= b1]
        return iter(found)

    def count(self, coordinates):
        return len(list(self.intersection(coordinates)))


MODULE = types.ModuleType('rtree')
MODULE.index = types.ModuleType('rtree.index')
MODULE.index.Index = Index
MODULE.Index = Index
MODULE.RTreeError = RTreeError
