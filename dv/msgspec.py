"""Contracts of messages between processes (M01): what is sent arrives, whatever the header and the contents.

The serializer is used through its contract (Z01): encoding appends the encoding of the value to the stream, decoding
takes it back off; here a stream is the ghost list of the values encoded in it."""
from spec import *
from stl import as_ptr, get_str, set_str

TUS = ['@ipcmsg.cpp'] + ['src/common/maf/messaging/client-server/' + x for x in ('CSMessage.cpp', 'CSError.cpp', 'Address.cpp', 'ipc/LocalIPCMessage.cpp')]
S = 'maf::srz::'
NUMS = {'char': 1, 'bool': 1, 'unsigned char': 1, 'signed char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8,
        'maf::messaging::OpCode': 1, 'maf::messaging::CSPayloadType': 1, 'maf::messaging::CSErrorCode': 1}


class Msg:
    def __init__(self, t):
        self.t, self.ex = t, t.ex
        ex = self.ex
        install_opaque(ex)
        self.st = t.state()
        self.bufs = []          # (string value, tokens)
        self.obuf = t.off(r'maf::srz::OByteStream', 'data_')
        self.ibuf, self.ipos = t.off(r'maf::srz::IByteStream', 'buffer_'), t.off(r'maf::srz::IByteStream', 'readingPos_')
        self.vbuf, self.vpos = t.off(r'maf::srz::IByteStreamView', 'buffer_'), t.off(r'maf::srz::IByteStreamView', 'readingPos_')
        self.istate, self.vstate = t.off(r'maf::srz::IByteStream', 'state_'), t.off(r'maf::srz::IByteStreamView', 'state_')
        ex.contracts[S + 'serialize'] = self.enc
        ex.contracts[S + 'deserialize'] = self.dec
        self.arbitrary = False

    def type(self, c):
        """(stream, value type) of the instance of serialize/deserialize that is called"""
        d = c.dem.replace('std::__cxx11::', 'std::')
        m = re.search(r'serialize<(\w[\w:]*), (.*?)>\(', d)
        if not m:
            raise Unsupported('serialize call ' + d[:80])
        return m.group(1), m.group(2)

    def toks(self, st, v):
        for w, ts in gget(st, 'bufs', ()):
            if eq(w, v) is True:
                return ts
        return None

    def parts(self, ty, p):
        """flat components of a value: (kind, place)"""
        if ty.startswith('std::basic_string<char'):
            return [('s', p)]
        if ty in NUMS:
            return [(NUMS[ty], p)]
        if ty == 'maf::messaging::Address':
            A = 'maf::messaging::Address'
            return [('s', p.at(self.t.off(A, 'name_'))), (2, p.at(self.t.off(A, 'port_')))]
        if ty.startswith('std::shared_ptr<Opaque>'):
            return [('p', p)]
        raise Unsupported('type of the serialized value: ' + ty[:60])

    def get(self, st, k, p):
        ex = self.ex
        if k == 's':
            return get_str(ex, st, p)
        if k == 'p':
            q = as_ptr(ex.read(st, p, 'm', 8, ex.init_ptr))
            null = ex.ptr_eq(q, NULL)
            if null is not True and null is not False:
                null = ex.decide(st, null)
            return None if null else val(ex, st, q)
        return ex.read_int(st, p, k)

    def enc(self, ex, st, c):
        sty, ty = self.type(c)
        if not sty.endswith('OByteStream') or ty.startswith('std::tuple<'):
            return '$body'
        buf = c.args[0].at(self.obuf)
        old = get_str(ex, st, buf)
        ts = self.toks(st, old) or ()
        if not isc(old) or old != 0:
            ex.prove(st, 'message/stream-known', self.toks(st, old) is not None, 'bytes of unknown origin are in the stream')
        ts = ts + tuple((k, self.get(st, k, p)) for k, p in self.parts(ty, c.args[1]))
        new = ex.fresh_int(st, 'bytes', 1, (1 << 48) - 1)
        gset(st, 'bufs', gget(st, 'bufs', ()) + ((new, ts),))
        set_str(ex, st, buf, new)
        return None

    def dec(self, ex, st, c):
        sty, ty = self.type(c)
        view = sty.endswith('IByteStreamView')
        if not view and not sty.endswith('IByteStream') or ty.startswith('std::tuple<'):
            return '$body'
        if view:
            buf = as_ptr(ex.read(st, c.args[0].at(self.vbuf), 'm', 8, ex.init_ptr))
            pos, state = c.args[0].at(self.vpos), c.args[0].at(self.vstate)
        else:
            buf, pos, state = c.args[0].at(self.ibuf), c.args[0].at(self.ipos), c.args[0].at(self.istate)
        ts = self.toks(st, get_str(ex, st, buf))
        if ts is None:
            # arbitrary bytes: any value, or a failure that is reported (Z02)
            ex.prove(st, 'message/decodes-what-was-encoded', self.arbitrary, 'bytes decoded that are not the message')
            if ex.choose(st, 2) == 1:
                ex.write(st, state, 'm', 1, 2)
                gset(st, 'failed', True)
                ex.mark('decoding fails')
                return False
            for k, p in self.parts(ty, c.args[1]):
                self.put(st, k, p, ex.fresh_int(st, 'decoded', 0, (1 << 48) - 1 if k in 'sp' else (1 << 8 * k) - 1) if not isinstance(k, int) else ex.fresh_int(st, 'decoded', 0, (1 << 8 * k) - 1))
            return True
        i = ex.read_int(st, pos, 8)
        ps = self.parts(ty, c.args[1])
        good = isc(i) and i + len(ps) <= len(ts) and all(ts[i + j][0] == k for j, (k, p) in enumerate(ps))
        ex.prove(st, 'message/decodes-what-was-encoded', good, 'the decoder does not read what the encoder wrote: %s at %s of %s' % ([k for k, p in ps], i, [k for k, v in ts]))
        if not good:
            raise PathEnd()
        for j, (k, p) in enumerate(ps):
            self.put(st, k, p, ts[i + j][1])
        ex.write(st, pos, 'm', 8, i + len(ps))
        return True

    def put(self, st, k, p, v):
        ex = self.ex
        if k == 's':
            set_str(ex, st, p, v)
        elif k == 'p':
            if v is None:
                ex.write(st, p, 'm', 8, NULL)
                ex.write(st, p.at(8), 'm', 8, NULL)
                return
            q, ctl = self.t.obj(st, 'content'), self.t.obj(st, 'contentctl')
            stl.mark_alive(ex, st, ctl)
            set_val(ex, st, q, v)
            ex.write(st, p, 'm', 8, q)
            ex.write(st, p.at(8), 'm', 8, ctl)
        else:
            ex.write(st, p, 'm', k, v)


def lemma(name, what, arbitrary=False, need=(), over=None):
    def task(t):
        M = Msg(t)
        M.arbitrary = arbitrary
        t.need(*need)
        f = t.fn(name)
        st = M.st
        t.run(f, st, t.args(st, f, over), lambda s, r: M.ex.prove(s, what, M.ex.to_bool(r), 'lemma %s of tu/ipcmsg.cpp' % name))
    return task


def t_any(t):
    """arbitrary bytes: refused exactly if some part could not be decoded"""
    M = Msg(t)
    M.arbitrary = True
    ex, st = M.ex, M.st
    f = t.fn('maf::messaging::ipc::local::LocalIPCMessage::fromBytes')
    t.need('decoding fails', 'accepted')

    def post(s, r):
        r = ex.to_bool(r)
        ok = not gget(s, 'failed', False)
        if ok:
            ex.mark('accepted')
        ex.prove(s, 'message/garbage-refused', r is ok or eq(r, ok), 'the result does not tell whether the bytes could be decoded')
    t.run(f, st, t.args(st, f), post)


TASKS = [('message header', lemma('msg_none', 'message/arrives-as-sent')), ('error message', lemma('msg_error', 'message/error-arrives-as-sent')),
         ('message contents', lemma('msg_content', 'message/contents-arrive-as-sent')),
         ('LocalIPCMessage::fromBytes(any)', t_any), ('message from any bytes', lemma('msg_any', 'message/any-bytes-safe', True)),
         ('local contents', lemma('param_local', 'message/local-contents')), ('no contents', lemma('param_none', 'message/no-contents-reported')),
         ('contents of an error', lemma('param_error', 'message/error-has-no-contents')), ('corrupted contents', lemma('param_bad', 'message/corrupted-contents-reported', True)),
         ('payload comparison', lemma('payload_equal', 'payload/equal')), ('payloads of different kinds', lemma('payload_mixed', 'payload/different-kinds-differ')),
         ('error comparison', lemma('error_equal', 'payload/error-equal')), ('error copy', lemma('error_clone', 'payload/error-clone')),
         ('error value copy', lemma('error_copy', 'payload/error-copies-are-independent')), ('error setters', lemma('error_set', 'payload/error-setters')), ('payload copy', lemma('payload_clone', 'payload/clone')),
         ('contents between threads', lemma('itc_content', 'message/contents-between-threads')), ('payloads between threads', lemma('itc_equal', 'payload/equal')),
         ('message fields', lemma('msg_set', 'message/fields')), ('message copy', lemma('msg_copy', 'message/copies')), ('message creation', lemma('msg_create', 'message/created'))]
