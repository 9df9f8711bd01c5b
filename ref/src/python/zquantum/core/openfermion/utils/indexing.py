import numpy

def up_index(index):
    return 2 * index

def down_index(index):
    return 2 * index + 1

def up_then_down(mode_idx, num_modes):
    halfway = int(numpy.ceil(num_modes / 2.0))
    if mode_idx % 2 == 0:
        return mode_idx // 2
    return mode_idx // 2 + halfway
