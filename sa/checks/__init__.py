from . import hashes, keccak, wots, verify, sign, keys, desc, text, pool, copying, globals as _globals, stack as _stack, pq, secret, binding as _binding  # noqa
