"""ctypes bindings to libsim.so / libsoft.so and helpers around them."""
import ctypes as C
import errno, os, struct, sys
from . import build
from .core import Violation

_libs = {}
u8p = C.POINTER(C.c_uint8)
VP, SZ, I, I64, U64, D, S = C.c_void_p, C.c_size_t, C.c_int, C.c_int64, C.c_uint64, C.c_double, C.c_char_p

# Callback types used by the repository.
CB_V = C.CFUNCTYPE(I, VP)                 # int (*)(void *)
CB_VI = C.CFUNCTYPE(I, VP, I)             # int (*)(void *, int)
CB_VSS = C.CFUNCTYPE(I, VP, C.c_ssize_t)  # int (*)(void *, ssize_t)
CB_VPP = C.CFUNCTYPE(I, VP, VP, VP)       # handshake
CB_VP = C.CFUNCTYPE(I, VP, VP)            # dnsthread
CB_CMP = C.CFUNCTYPE(I, VP, VP, VP)
CB_SETNUM = C.CFUNCTYPE(None, VP, VP, SZ)
CB_CONN = C.CFUNCTYPE(I, I, I, VP, I)
CB_GAI = C.CFUNCTYPE(I, S, S, I, VP, VP, I)


class Timeval(C.Structure):
    _fields_ = [("tv_sec", C.c_long), ("tv_usec", C.c_long)]


SIGS = {
    # simk
    "sim_reset": (None, []), "sim_new_stream": (I, []), "sim_new_listener": (I, []), "sim_fd": (I, [I]),
    "sim_neps": (I, []), "sim_nopen": (I, []), "sim_feed": (None, [I, S, SZ]), "sim_feed_eof": (None, [I]),
    "sim_feed_err": (None, [I, I, I]), "sim_set_txcap": (None, [I, SZ]), "sim_set_txerr": (None, [I, I]),
    "sim_set_hup": (None, [I, I]), "sim_take": (SZ, [I, VP, SZ]), "sim_tx_avail": (SZ, [I]), "sim_tx_len": (SZ, [I]),
    "sim_rx_unread": (SZ, [I]), "sim_rx_read": (SZ, [I]), "sim_rx_drain": (None, [I]), "sim_connect_done": (None, [I, I]), "sim_incoming": (I, [I]),
    "sim_listener_pending": (I, [I]), "sim_run": (I, [I64]), "sim_once": (I, [I64, C.POINTER(I)]), "sim_ready": (I, [I]), "sim_set_io_tape": (None, [S, SZ]),
    "sim_set_misc_tape": (None, [S, SZ]), "sim_set_rng_tape": (None, [S, SZ]), "sim_io_tape_used": (SZ, []),
    "sim_push_connect": (None, [I]), "sim_push_socket": (None, [I]), "sim_push_bind": (None, [I]),
    "sim_push_accept": (None, [I]), "sim_reuse": (I, [I]), "sim_listening": (I, [I]), "sim_nconnects": (I, []), "sim_sys_name": (S, []), "sim_connect_ep": (I, [I]),
    "sim_set_conncb": (None, [CB_CONN]), "__wrap_close": (I, [I]), "sim_closed": (I, [I]), "sim_shutwr": (I, [I]), "sim_shutrd": (I, [I]), "sim_nonblock": (I, [I]),
    "sim_keepalive": (I, [I]), "sim_nodelay": (I, [I]), "sim_seq_close": (U64, [I]), "sim_seq_shutwr": (U64, [I]),
    "sim_state": (I, [I]), "sim_kind": (I, [I]), "sim_peer": (SZ, [I, VP, SZ]), "sim_bound": (SZ, [I, VP, SZ]),
    "sim_domain": (I, [I]), "sim_type": (I, [I]), "sim_set_nonblock": (None, [I, I]), "sim_t_create": (I64, [I]),
    "sim_rng_seed": (None, [U64]), "sim_rng_log": (SZ, [VP, SZ]), "sim_set_gai": (None, [CB_GAI]), "sim_nrecv": (U64, [I]),
    "sim_secrets_clear": (None, []), "sim_secret_add": (I, [S, SZ]), "sim_secret_hits": (I, [I]),
    "sim_secret_live": (I, [S, SZ]),
    "sim_priv_reset": (None, [C.c_uint32, C.c_uint32]), "sim_priv_err": (None, [I, I, I]), "sim_priv_group": (None, [C.c_uint32]),
    "sim_priv_name": (None, [I, S, C.c_uint32]), "sim_priv_state": (I, [C.POINTER(C.c_uint32)]),
    "sim_ent_seed": (None, [U64]), "sim_ent_push": (None, [S, SZ]), "sim_ent_log": (SZ, [VP, SZ]),
    "sim_free": (None, [VP]), "g_set_errno": (None, [I]), "g_get_errno": (I, []),
    # events
    "events_immediate_register": (VP, [CB_V, VP, I]), "events_immediate_cancel": (None, [VP]),
    "events_network_register": (I, [CB_V, VP, I, I]), "events_network_cancel": (I, [I, I]),
    "events_timer_register": (VP, [CB_V, VP, C.POINTER(Timeval)]), "events_timer_register_double": (VP, [CB_V, VP, D]),
    "events_timer_cancel": (None, [VP]), "events_timer_reset": (I, [VP]), "events_run": (I, []),
    "events_spin": (I, [C.POINTER(I)]), "events_interrupt": (None, []),
    # network
    "network_read": (VP, [I, VP, SZ, SZ, CB_VSS, VP]), "network_read_cancel": (None, [VP]),
    "network_write": (VP, [I, VP, SZ, SZ, CB_VSS, VP]), "network_write_cancel": (None, [VP]),
    "network_accept": (VP, [I, CB_VI, VP]), "network_accept_cancel": (None, [VP]),
    "network_connect": (VP, [VP, CB_VI, VP]), "network_connect_bind": (VP, [VP, VP, CB_VI, VP]),
    "network_connect_timeo": (VP, [VP, C.POINTER(Timeval), CB_VI, VP]), "network_connect_cancel": (None, [VP]),
    "netbuf_read_init": (VP, [I]), "netbuf_read_peek": (None, [VP, C.POINTER(VP), C.POINTER(SZ)]),
    "netbuf_read_wait": (I, [VP, SZ, CB_VI, VP]), "netbuf_read_wait_cancel": (None, [VP]),
    "netbuf_read_consume": (None, [VP, SZ]), "netbuf_read_free": (None, [VP]),
    # proto
    "proto_crypt_secret": (VP, [S]), "proto_crypt_secret_free": (None, [VP]),
    "proto_crypt_dhmac": (None, [VP, S, S, VP, VP, I]), "proto_crypt_dh_validate": (I, [S, S, I]),
    "proto_crypt_dh_generate": (I, [VP, VP, S, I]),
    "proto_crypt_mkkeys": (I, [VP, S, S, S, S, I, I, C.POINTER(VP), C.POINTER(VP)]),
    "proto_crypt_enc": (None, [VP, SZ, VP, VP]), "proto_crypt_dec": (C.c_ssize_t, [VP, VP, VP]),
    "proto_crypt_free": (None, [VP]),
    "proto_handshake": (VP, [I, I, I, I, VP, CB_VPP, VP]), "proto_handshake_cancel": (None, [VP]),
    "proto_pipe": (VP, [I, I, I, VP, C.POINTER(I), CB_V, VP]), "proto_pipe_cancel": (None, [VP]),
    "proto_conn_create": (VP, [I, VP, VP, I, I, I, I, VP, D, CB_VI, VP]), "proto_conn_drop": (I, [VP, I]),
    "dispatch_accept": (VP, [I, S, D, VP, VP, I, I, I, I, VP, SZ, D, C.POINTER(I)]),
    "dispatch_shutdown": (None, [VP]), "dispatch_request_shutdown": (None, [VP]),
    "dnsthread_spawn": (VP, []), "dnsthread_resolveone": (I, [VP, S, CB_VP, VP]), "dnsthread_kill": (I, [VP]),
    "dnsthread_resolve": (I, [S, CB_VP, VP]),
    # sock
    "sock_resolve": (VP, [S]), "sock_resolve_one": (VP, [S, I]), "sock_addr_free": (None, [VP]),
    "sock_addr_freelist": (None, [VP]), "sock_addr_cmp": (I, [VP, VP]), "sock_addr_dup": (VP, [VP]),
    "sock_addr_duplist": (VP, [VP]), "sock_addr_serialize": (I, [VP, C.POINTER(VP), C.POINTER(SZ)]),
    "sock_addr_deserialize": (VP, [S, SZ]), "sock_addr_prettyprint": (VP, [VP]), "sock_addr_ensure_port": (VP, [S]),
    "sock_addr_validate": (I, [S]), "sock_listener": (I, [VP]), "sock_connect": (I, [VP]), "sock_connect_nb": (I, [VP]),
    "sock_connect_bind_nb": (I, [VP, VP]),
    # crypto
    "crypto_entropy_read": (I, [VP, SZ]), "entropy_read": (I, [VP, SZ]),
    "crypto_dh_generate_pub": (I, [VP, S]), "crypto_dh_generate": (I, [VP, VP]), "crypto_dh_compute": (I, [S, S, VP]),
    "crypto_dh_sanitycheck": (I, [S]), "crypto_verify_bytes": (I, [VP, VP, SZ]),
    "g_sha_buf": (None, [VP, SZ, VP]), "g_sha_new": (VP, []), "g_sha_update": (None, [VP, VP, SZ]), "g_sha_final": (None, [VP, VP]),
    "g_hmac_buf": (None, [VP, SZ, VP, SZ, VP]), "g_hmac_new": (VP, [VP, SZ]), "g_hmac_update": (None, [VP, VP, SZ]), "g_hmac_final": (None, [VP, VP]),
    "g_hmac_dup": (VP, [VP]), "g_sha_dup": (VP, [VP]), "g_pbkdf2": (None, [VP, SZ, VP, SZ, U64, VP, SZ]),
    "crypto_aes_key_expand": (VP, [S, SZ]), "crypto_aes_encrypt_block": (None, [VP, VP, VP]), "crypto_aes_key_free": (None, [VP]),
    "crypto_aesctr_alloc": (VP, []), "crypto_aesctr_init2": (None, [VP, VP, U64]), "crypto_aesctr_init": (VP, [VP, U64]),
    "crypto_aesctr_stream": (None, [VP, VP, VP, SZ]), "crypto_aesctr_free": (None, [VP]),
    "crypto_aesctr_buf": (None, [VP, U64, VP, VP, SZ]),
    # data structures
    "ptrheap_init": (VP, [CB_CMP, CB_SETNUM, VP]), "ptrheap_create": (VP, [CB_CMP, CB_SETNUM, VP, SZ, VP]),
    "ptrheap_add": (I, [VP, VP]), "ptrheap_getmin": (VP, [VP]), "ptrheap_decrease": (None, [VP, SZ]),
    "ptrheap_increase": (None, [VP, SZ]), "ptrheap_increasemin": (None, [VP]), "ptrheap_delete": (None, [VP, SZ]),
    "ptrheap_deletemin": (None, [VP]), "ptrheap_free": (None, [VP]),
    "timerqueue_init": (VP, []), "timerqueue_add": (VP, [VP, C.POINTER(Timeval), VP]), "timerqueue_delete": (None, [VP, VP]),
    "timerqueue_increase": (None, [VP, VP, C.POINTER(Timeval)]), "timerqueue_getmin": (C.POINTER(Timeval), [VP]),
    "timerqueue_getptr": (VP, [VP, C.POINTER(Timeval)]), "timerqueue_free": (None, [VP]),
    "elasticarray_init": (VP, [SZ, SZ]), "elasticarray_resize": (I, [VP, SZ, SZ]), "elasticarray_getsize": (SZ, [VP, SZ]),
    "elasticarray_append": (I, [VP, S, SZ, SZ]), "elasticarray_shrink": (None, [VP, SZ, SZ]), "elasticarray_truncate": (I, [VP]),
    "elasticarray_get": (VP, [VP, SZ, SZ]), "elasticarray_free": (None, [VP]),
    "elasticarray_export": (I, [VP, C.POINTER(VP), C.POINTER(SZ), SZ]),
    "elasticarray_exportdup": (I, [VP, C.POINTER(VP), C.POINTER(SZ), SZ]),
    "setuidgid": (I, [S, I]),
    "graceful_shutdown_initialize": (I, [CB_V, VP]),
}

VARS = {"sim_enabled": I, "sim_now": I64, "sim_clockstep": I64, "sim_oversleep": I64, "sim_wallskew": I64, "sim_idle": I, "sim_realwait_ms": I,
        "sim_npoll": U64, "sim_livelock": I, "sim_poll_limit": U64, "sim_nlog": I, "sim_clock_fail": I, "sim_sys_fail_at": I64, "sim_setsockopt_errno": I, "sim_sys_fail_persist": I, "sim_sys_count": U64, "sim_sys_failed": U64, "sim_connect_default": I,
        "sim_n_recv": U64, "sim_n_send": U64, "sim_n_eintr": U64, "sim_n_eagain": U64, "sim_n_partial": U64,
        "sim_rng_on": I, "sim_rng_bytes": U64, "sim_rng_openerr": I, "sim_rng_closeerr": I, "sim_open_count": I,
        "sim_gai_live": I, "sim_alloc_track": I, "sim_alloc_live": I64, "sim_alloc_bytes": I64, "sim_alloc_count": U64,
        "sim_alloc_fail_at": I64, "sim_alloc_fail_persist": I, "sim_alloc_failed": U64, "sim_frees_scanned": U64,
        "sim_bytes_scanned": U64, "sim_ent_mode": I, "sim_ent_fail_at": I64, "sim_ent_calls": U64, "sim_priv_on": I, "sim_priv_setgroups_noop": I, "sim_bn_frees": I64}


class Lib:
    """Attribute access: functions as functions, simk variables as ints."""

    def __init__(self, path):
        c = C.CDLL(path)
        object.__setattr__(self, "cdll", c)
        for n, (r, a) in SIGS.items():
            try:
                f = getattr(c, n)
            except AttributeError:
                continue
            f.restype, f.argtypes = r, a
            object.__setattr__(self, n, f)
        v = {n: t.in_dll(c, n) for n, t in VARS.items()}
        object.__setattr__(self, "vars", v)
        object.__setattr__(self, "log", (C.c_char * 65536).in_dll(c, "sim_logbuf"))

    def __getattr__(self, n):
        v = object.__getattribute__(self, "vars")
        if n in v:
            return v[n].value
        return getattr(object.__getattribute__(self, "cdll"), n)

    def __setattr__(self, n, x):
        self.vars[n].value = x

    def problems(self):
        return self.log.value.decode(errors="replace") if self.sim_nlog else ""

    def take(self, ep, n=1 << 30):
        n = min(n, self.sim_tx_avail(ep))
        if n == 0:
            return b""
        b = C.create_string_buffer(n)
        k = self.sim_take(ep, b, n)
        return b.raw[:k]

    def feed(self, ep, data):
        if data:
            self.sim_feed(ep, data, len(data))

    def peer(self, ep):
        b = C.create_string_buffer(128)
        n = self.sim_peer(ep, b, 128)
        return b.raw[:n]

    def bound(self, ep):
        b = C.create_string_buffer(128)
        n = self.sim_bound(ep, b, 128)
        return b.raw[:n]


def load(which="sim"):
    if which not in _libs:
        path = build.LIBS[which]()
        _libs[which] = Lib(path)
        hush()
    return _libs[which]


def fresh_sim(L, io=b"", misc=b"", seed=1):
    """Start a case: clean virtual kernel."""
    L.sim_enabled = 1
    L.sim_reset()
    L.sim_set_io_tape(bytes(io), len(io))
    L.sim_set_misc_tape(bytes(misc), len(misc))
    L.sim_alloc_fail_at = -1
    L.sim_ent_seed(seed)
    L.sim_ent_mode = 1


_hushed = False


def hush():
    """The code under test writes warnings to stderr; keep only 1 MB of them."""
    global _hushed
    _hushed = True


class Keep:
    """Holds ctypes callbacks alive and collects exceptions raised in them."""

    def __init__(self):
        self.refs, self.exc = [], None

    def cb(self, typ, fn):
        def wrap(*a):
            try:
                r = fn(*a)
                return 0 if r is None else r
            except BaseException as e:
                if self.exc is None:
                    self.exc = e
                return -1
        f = typ(wrap)
        self.refs.append(f)
        return f

    def reraise(self):
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e


SEC = 1000000000


def buf(data):
    return (C.c_uint8 * len(data)).from_buffer_copy(data) if data else (C.c_uint8 * 1)()


# struct sock_addr: { int ai_family; int ai_socktype; struct sockaddr *name; socklen_t namelen; }
# is private to the repository, so address lists are made with sock_resolve.

def addrlist(L, specs):
    """sas made of several address strings (numeric IPv4/IPv6 or /path)."""
    lists = []
    total = 0
    out = []
    for s in specs:
        p = L.sock_resolve(s.encode())
        if not p:
            raise RuntimeError("sock_resolve(%r) failed" % s)
        a = C.cast(p, C.POINTER(VP))
        out.append(L.sock_addr_dup(a[0]))
        L.sock_addr_freelist(p)
    arr = (VP * (len(out) + 1))(*out, None)
    # duplist gives a list which the repository's own code may free
    d = L.sock_addr_duplist(C.cast(arr, VP))
    for x in out:
        L.sock_addr_free(x)
    if not d:
        raise RuntimeError("sock_addr_duplist failed")
    return d


def inet_of(sa):
    """Decode raw sockaddr bytes."""
    if len(sa) < 2:
        return None
    fam = struct.unpack("=H", sa[:2])[0]
    if fam == 2:
        return ("4", ".".join(str(x) for x in sa[4:8]), struct.unpack(">H", sa[2:4])[0])
    if fam == 10:
        return ("6", sa[8:24].hex(), struct.unpack(">H", sa[2:4])[0])
    if fam == 1:
        return ("u", sa[2:].split(b"\0")[0].decode("latin1"), 0)
    return ("?", sa.hex(), 0)
