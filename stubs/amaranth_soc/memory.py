"""Stand-in for amaranth-soc's memory maps (the package is not installed here): address allocation, resources, windows."""
from amaranth.utils import log2_int


class ResourceInfo:
    def __init__(self, resource, name, start, end, width):
        self.resource, self.name, self.start, self.end, self.width = resource, name, start, end, width


class MemoryMap:
    def __init__(self, *, addr_width, data_width=8, alignment=0, name=None):
        self.addr_width, self.data_width, self.alignment, self.name = addr_width, data_width, alignment, name
        self._frozen = False
        self._next = 0
        self._ranges = []            # (start, end, kind, object, name, ratio)

    def _alloc(self, addr, size, alignment, extend):
        if self._frozen:
            raise ValueError("memory map has been frozen")
        step = 1 << max(alignment, self.alignment)
        if addr is None:
            addr = (self._next + step - 1) // step * step
        elif addr % step:
            raise ValueError("address is not aligned")
        size = (max(size, 1) + step - 1) // step * step
        if addr + size > 1 << self.addr_width:
            if not extend:
                raise ValueError(f"address range {addr:#x}..{addr + size:#x} is out of bounds")
            self.addr_width = log2_int(addr + size, need_pow2=False)
        for a, b, *_ in self._ranges:
            if addr < b and a < addr + size:
                raise ValueError(f"address range {addr:#x}..{addr + size:#x} overlaps {a:#x}..{b:#x}")
        self._next = addr + size
        return addr, addr + size

    def align_to(self, alignment):
        step = 1 << max(alignment, self.alignment)
        self._next = (self._next + step - 1) // step * step
        return self._next

    def add_resource(self, resource, *, name=None, size, addr=None, alignment=None, extend=False):
        a, b = self._alloc(addr, size, alignment or 0, extend)
        if name is not None and any(n == name for _, _, k, _, n, _ in self._ranges if k == "r"):
            raise ValueError(f"resource name {name!r} is already in use")
        self._ranges.append((a, b, "r", resource, name, 1))
        return a, b

    def add_window(self, window, *, addr=None, sparse=None, extend=False):
        ratio = 1 if sparse else self.data_width // window.data_width
        size = max(1, (1 << window.addr_width) // ratio)
        al = log2_int(size, need_pow2=False)
        a, b = self._alloc(addr, size, al, extend)
        window._frozen = True
        self._ranges.append((a, b, "w", window, window.name, ratio))
        return a, b, ratio

    def resources(self):
        for a, b, k, o, n, _ in sorted(self._ranges, key=lambda x: x[:2]):
            if k == "r":
                yield o, n, (a, b)

    def windows(self):
        for a, b, k, o, _, r in sorted(self._ranges, key=lambda x: x[:2]):
            if k == "w":
                yield o, (a, b, r)

    def all_resources(self):
        for a, b, k, o, n, r in sorted(self._ranges, key=lambda x: x[:2]):
            if k == "r":
                yield ResourceInfo(o, (n,), a, b, self.data_width)
            else:
                for i in o.all_resources():
                    name = i.name if o.name is None else (o.name, *i.name)
                    yield ResourceInfo(i.resource, name, a + i.start // r, a + (i.end + r - 1) // r, i.width * r)
