"""Independent reference implementations used as oracles.

Hashing: Python's hashlib/hmac.  Modular arithmetic: Python integers, with the
RFC 3526 group 14 prime computed from its defining formula.  AES-256: OpenSSL's
EVP interface (which /repo does not use), cross-checked by self_test() against
the pure-Python AES below on published vectors.
"""
import ctypes, ctypes.util, hashlib, hmac as _hmac, struct


# --- group 14 -------------------------------------------------------------
def _pi_times_2exp(n):
    """floor(pi * 2**n) by Machin's formula."""
    extra = 64
    one = 1 << (n + extra)

    def arctan_inv(x):
        s = t = one // x
        k, sign, x2 = 3, -1, x * x
        while t:
            t //= x2
            s += sign * (t // k)
            sign, k = -sign, k + 2
        return s
    return (4 * (4 * arctan_inv(5) - arctan_inv(239))) >> extra


P14 = 2**2048 - 2**1984 - 1 + 2**64 * (_pi_times_2exp(1918) + 124476)


def sha256(b):
    return hashlib.sha256(b).digest()


def hmac256(k, b):
    return _hmac.new(k, b, hashlib.sha256).digest()


def pbkdf2(pw, salt, c, n):
    return hashlib.pbkdf2_hmac("sha256", pw, salt, c, n)


# --- AES via EVP ------------------------------------------------------------
_lc = None


def _crypto():
    global _lc
    if _lc is None:
        _lc = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        _lc.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
        for f in ("EVP_aes_256_ctr", "EVP_aes_128_ctr", "EVP_aes_256_ecb", "EVP_aes_128_ecb"):
            getattr(_lc, f).restype = ctypes.c_void_p
        _lc.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]
        _lc.EVP_EncryptInit_ex.argtypes = [ctypes.c_void_p] * 3 + [ctypes.c_char_p] * 2
        _lc.EVP_EncryptUpdate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
        _lc.EVP_CIPHER_CTX_set_padding.argtypes = [ctypes.c_void_p, ctypes.c_int]
    return _lc


def _evp(name, key, iv, data):
    lc = _crypto()
    ctx = lc.EVP_CIPHER_CTX_new()
    assert lc.EVP_EncryptInit_ex(ctx, getattr(lc, name)(), None, key, iv) == 1
    lc.EVP_CIPHER_CTX_set_padding(ctx, 0)
    out = ctypes.create_string_buffer(len(data) + 32)
    n = ctypes.c_int()
    assert lc.EVP_EncryptUpdate(ctx, out, ctypes.byref(n), data, len(data)) == 1
    lc.EVP_CIPHER_CTX_free(ctx)
    assert n.value == len(data)
    return out.raw[:len(data)]


def aes_ctr(key, nonce, data, skip=0):
    """AES-CTR with block = be64(nonce) || be64(counter from 0); skip bytes."""
    name = {16: "EVP_aes_128_ctr", 32: "EVP_aes_256_ctr"}[len(key)]
    blk, off = divmod(skip, 16)
    iv = struct.pack(">QQ", nonce, blk)
    return _evp(name, key, iv, b"\0" * off + data)[off:]


def aes_block(key, block):
    return _evp({16: "EVP_aes_128_ecb", 32: "EVP_aes_256_ecb"}[len(key)], key, None, block)


# --- pure Python AES (only for cross-checks) ------------------------------
def _xt(a):
    return ((a << 1) ^ 0x1b) & 0xff if a & 0x80 else a << 1


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a, b = _xt(a), b >> 1
    return r


_SBOX = None


def _sbox():
    global _SBOX
    if _SBOX is None:
        s = [0x63] * 256
        for i in range(1, 256):
            inv = next(j for j in range(1, 256) if _gmul(i, j) == 1)
            r = 0
            for b in range(8):
                bit = (inv >> b ^ inv >> ((b + 4) % 8) ^ inv >> ((b + 5) % 8) ^ inv >> ((b + 6) % 8) ^ inv >> ((b + 7) % 8) ^ 0x63 >> b) & 1
                r |= bit << b
            s[i] = r
        _SBOX = s
    return _SBOX


def py_aes_block(key, block):
    sb = _sbox()
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [sb[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [sb[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    s = [b ^ w[i // 4][i % 4] for i, b in enumerate(block)]
    for r in range(1, nr + 1):
        s = [sb[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r != nr:
            n = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    n.append(_gmul(a[i], 2) ^ _gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4])
            s = n
        s = [x ^ w[4 * r + i // 4][i % 4] for i, x in enumerate(s)]
    return bytes(s)


# --- HMAC_DRBG (SP 800-90A, SHA256, no personalization) ---------------------
class HmacDrbg:
    def __init__(self, seed):
        self.K, self.V = b"\0" * 32, b"\1" * 32
        self.update(seed)
        self.counter = 1

    def update(self, data):
        self.K = hmac256(self.K, self.V + b"\0" + data)
        self.V = hmac256(self.K, self.V)
        if data:
            self.K = hmac256(self.K, self.V + b"\1" + data)
            self.V = hmac256(self.K, self.V)

    def reseed(self, data):
        self.update(data)
        self.counter = 1

    def generate(self, n):
        out = b""
        while len(out) < n:
            self.V = hmac256(self.K, self.V)
            out += self.V
        self.update(b"")
        self.counter += 1
        return out[:n]


# --- spiped protocol ---------------------------------------------------------
class Keys:
    """One direction's packet keys."""

    def __init__(self, E, H, pnum=0):
        self.E, self.H, self.pnum = E, H, pnum

    def seal(self, payload, pad=None, length=None):
        body = payload + (pad if pad is not None else b"\0" * (1024 - len(payload)))
        body += struct.pack(">I", len(payload) if length is None else length)
        ct = aes_ctr(self.E, self.pnum, body)
        mac = hmac256(self.H, ct + struct.pack(">Q", self.pnum))
        self.pnum += 1
        return ct + mac

    def open(self, pkt):
        """Returns (payload, padding) or None."""
        ct, mac = pkt[:1028], pkt[1028:]
        if hmac256(self.H, ct + struct.pack(">Q", self.pnum)) != mac:
            return None
        body = aes_ctr(self.E, self.pnum, ct)
        self.pnum += 1
        n = struct.unpack(">I", body[1024:])[0]
        if n < 1 or n > 1024:
            return None
        return body[:n], body[n:1024]


def dhmacs(K, nC, nS):
    dk = pbkdf2(K, nC + nS, 1, 64)
    return dk[:32], dk[32:]


def session_keys(K, nC, nS, ysc):
    dk = pbkdf2(K, nC + nS + ysc.to_bytes(256, "big"), 1, 128)
    return Keys(dk[0:32], dk[32:64]), Keys(dk[64:96], dk[96:128])


def y_of(priv):
    """Public value for 32 private bytes."""
    return pow(2, (1 << 258) + int.from_bytes(priv, "big"), P14)


def yh(y, mac):
    b = y.to_bytes(256, "big") if isinstance(y, int) else y
    return b + hmac256(mac, b)


def self_test():
    k = bytes(range(32))
    assert py_aes_block(k, bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
    assert aes_block(k, bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
    k = bytes(range(16))
    assert py_aes_block(k, bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
    assert P14 % 2**64 == 2**64 - 1 and P14 >> 1984 == 2**64 - 1
    assert pow(2, P14 - 1, P14) == 1


if __name__ == "__main__":
    self_test()
    print(hex(P14)[:60], hex(P14)[-40:])
