"""A table of several partitions, for code written against the table interface (computing/_computing.py)."""
import boot
boot.install()
from computing.d_table import DTable


class Parts(DTable):
    """Records spread over partitions by `place` (key -> partition number); collected partition by partition."""

    def __init__(self, pairs, place, count, keep_empty=False):
        self.place, self.parts_, self.keep_empty = place, count, keep_empty
        buckets = [[] for _ in range(count)]
        for k, v in pairs:
            buckets[place(k)].append((k, v))
        super().__init__(True, [kv for b in buckets for kv in b])

    def again(self, t):
        r = Parts(list(t.collect()), self.place, self.parts_, self.keep_empty)
        return r

    def buckets(self):
        out = [[] for _ in range(self.parts_)]
        for k, v in self.collect():
            out[self.place(k)].append((k, v))
        return [b for b in out if b or self.keep_empty]

    def map(self, func):
        return self.again(super().map(func))

    def mapValues(self, func):
        return self.again(super().mapValues(func))

    def filter(self, func):
        return self.again(super().filter(func))

    def join(self, other, func=lambda v1, v2: v1):
        return self.again(super().join(other, func))

    def union(self, other, func=lambda v1, v2: v1):
        return self.again(super().union(other, func))

    def subtractByKey(self, other):
        return self.again(super().subtractByKey(other))

    def mapPartitions(self, func):
        results = []
        for i, b in enumerate(self.buckets()):
            results += [(i, v) for v in func(dict(b).items())]
        nums = [i for i, _ in results]
        return Parts(list(enumerate(v for _, v in results)), Given(nums), self.parts_, False)

    def mapReducePartitions(self, mapper, reducer, **kargs):
        out = {}
        for b in self.buckets():
            for k, v in mapper(dict(b).items()):
                out[k] = reducer(out[k], v) if k in out else v
        return Parts(list(out.items()), self.place, self.parts_, self.keep_empty)

    def reduce(self, func):
        """Within the partitions first, then over the partitions' results."""
        acc = []
        for b in self.buckets():
            if not b:
                continue
            a = b[0][1]
            for _, v in b[1:]:
                a = func(a, v)
            acc.append(a)
        if not acc:
            return None
        r = acc[0]
        for a in acc[1:]:
            r = func(r, a)
        return r


class Place:
    """Key -> partition."""

    def __init__(self, codes, count):
        self.codes, self.count = codes, count

    def __call__(self, k):
        h = k if isinstance(k, int) else sum(ord(c) * (i + 1) for i, c in enumerate(str(k)))
        return (self.codes[h % len(self.codes)] + h // len(self.codes)) % self.count


class Given:
    def __init__(self, nums):
        self.nums = nums

    def __call__(self, k):
        return self.nums[k] if isinstance(k, int) and k < len(self.nums) else 0


def split(t, codes, count, keep_empty=False):
    """The records of t over `count` partitions; codes: ints that place them."""
    r = Parts(list(t.collect()), Place(codes, count), count, keep_empty)
    r.schema = dict(t.schema)
    return r
