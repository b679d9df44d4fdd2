"""Published constants used as oracle."""
FR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
FQ = 21888242871839275222246405745257275088696311157297823662689037894645226208583
BLSP = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
BLSR = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BN_X = 4965661367192848881
M64 = (1 << 64) - 1


def words(x, n):
    return tuple((x >> (64 * i)) & M64 for i in range(n))
