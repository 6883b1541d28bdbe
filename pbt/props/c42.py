"""transfer of an image: blocks, order, resumption"""
from hypothesis import strategies as st
from ..core import Prop, Facet
from src.DLMS_SPODES.types import cdt, cst
from src.DLMS_SPODES.cosem_interface_classes import collection as col
from src.DLMS_SPODES.cosem_interface_classes.image_transfer.ver0 import ImageTransfer


def make(size):
    o = ImageTransfer(cst.LogicalName("0.0.44.0.0.255"))
    o.collection = col.Collection()
    o.set_attr(2, size)
    return o


class Counted(bytes):
    """octets which note an endless division"""
    calls = 0

    def __getitem__(self, item):
        Counted.calls += 1
        if Counted.calls > 20000:
            raise RuntimeError("endless division of the image")
        ret = bytes.__getitem__(self, item)
        return Counted(ret) if isinstance(ret, bytes) else ret


def state(o):
    b = o.image_block_transfer
    return [o.get_n_blocks(), int(b.image_block_number), b.image_block_value.contents.hex()]


def image(n, seed):
    return bytes((i * 7 + seed + i // 256) % 256 for i in range(n))


@st.composite
def histories(draw):
    size = draw(st.one_of(st.integers(1, 20), st.sampled_from([64, 128, 200, 255, 256, 1000])))
    n = st.one_of(st.integers(1, 6 * size), st.integers(1, 5).map(lambda k: k * size), st.integers(1, size))
    load = st.tuples(st.just("load"), n, st.integers(0, 255), st.sampled_from(["", "61", "62", "6162", "00ff"])).map(list)
    op = st.one_of(load, load, *([st.just(["next"])] * 5), st.just(["rest"]), st.just(["clear"]), st.integers(0, 8).map(lambda i: ["goto", i]), st.integers(1, 40).map(lambda i: ["size", i]))
    return [size, [draw(load), *draw(st.lists(op, min_size=2, max_size=14))]]


def _history(ctx, case):
    size, ops = case
    o = make(size)
    blocks, number, value, ident, total = [], 0, b"", o.image_transfer_initiate.image_identifier.contents, 0
    value = o.image_block_transfer.image_block_value.contents
    number = int(o.image_block_transfer.image_block_number)
    resumed = done = False
    for op in ops:
        name = op[0]
        if name == "size":
            size = op[1]
            o.set_attr(2, size)
        elif name == "load":
            data, new = image(op[1], op[2]), bytes.fromhex(op[3])
            o.set_image_for_update(data, bytearray(new))
            blocks = [data[i: i + size] for i in range(0, len(data), size)]
            if new != ident or number >= len(blocks):
                number = 0
            elif number:        # the last block may not have been received
                number -= 1
                resumed = True
            ident, total, value = new, len(data), blocks[number]
        elif name == "next":
            if number + 1 < len(blocks):
                o.set_next_block()
                number += 1
                value = blocks[number]
            else:
                ctx.raises(o.set_next_block, "block after the last one", StopIteration)
        elif name == "goto":
            if op[1] < len(blocks):
                o.set_block_for_transfer(op[1])
                number, value = op[1], blocks[op[1]]
            else:
                ctx.raises(lambda: o.set_block_for_transfer(op[1]), "block outside of the image", IndexError)
        elif name == "clear":
            o.clear_image()
            blocks = []
        elif name == "rest" and blocks:
            got = b"".join(blocks[:number])
            while True:
                ctx.eq(int(o.image_block_transfer.image_block_number) * len(blocks[0]), len(got), "place of the block")
                got += o.image_block_transfer.image_block_value.contents
                try:
                    o.set_next_block()
                except StopIteration:
                    break
                ctx.check(len(got) < total, "transfer comes to an end")
            ctx.eq(got, b"".join(blocks), "image put together")
            number, value = len(blocks) - 1, blocks[-1]
            done = True
        ctx.eq(state(o), [len(blocks), number, value.hex()], f"blocks after {name}")
        ctx.eq(o.current_block_transfer, number, "current block")
        ctx.eq(o.is_image_exist, bool(blocks), "is there an image")
        ctx.eq(o.sent_blocks_part, number / len(blocks) if blocks else 0, "part sent")
        i = o.image_transfer_initiate
        if any(x[0] == "load" for x in ops[:1]):
            ctx.eq((i.image_identifier.contents, int(i.image_size)), (ident, total), f"announcement after {name}")
    ctx.nt(done or resumed)
    ctx.label("resumed", resumed)
    ctx.label("finished", done)


def _zero(ctx, case):
    n, = case
    o = make(0)
    Counted.calls = 0
    ctx.raises(lambda: o.set_image_for_update(Counted(image(n, 1)), bytearray(b"a")), "blocks of no octets", ValueError)
    ctx.nt(True)


PROP = Prop("C42", rule="non-trivial: the image was sent to its end, or a transfer was resumed", facets=[
    Facet("history", histories(), _history, quick=1200, thorough=40000),
    Facet("zero", st.integers(1, 50).map(lambda n: [n]), _zero, quick=5, thorough=20),
], assumptions=["The client confirms each block before the next one is taken; the server is not simulated beyond joining the blocks."])
