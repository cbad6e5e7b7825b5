"""A storage whose levels come in small chunks, through the public storage interface."""
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity_spec import ChunkSpec


class ChunkedMemory(Memory):
    """A storage whose levels come in small chunks."""
    size = 2

    def chunks(self, level_id=None, n_samples=None):
        if n_samples is not None:
            yield from super().chunks(level_id, n_samples)
            return
        for l in (self.get_level_ids() if level_id is None else [level_id]):
            n = int(self.get_n_collected()[l])
            for k, a in enumerate(range(0, n, self.size)):
                yield ChunkSpec(chunk_id=k, chunk_slice=slice(a, min(n, a + self.size), 1), level_id=l)
