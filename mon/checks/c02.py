"""C02 one matching identity suffices, whatever else is in the file or on the key ring"""
from mon import gen, ref
from mon.checks.c09 import variants

PROPERTY = "C02"
RULE = (
    "a case = file with n recipient entries (known kinds, unknown types, entries for strangers, entries whose SSH tag "
    "collides with an identity at hand) x m identities of which at least one matches, in random order; distinct = "
    "(entry kinds in order, identity kinds in order, which pairs match); oracle: plaintext returned and equal"
)
ASSUMPTIONS = ["passphrase entries other than the ones pyage writes use low work factors (written by the reference)"]
REQUIRED = {"decrypted": 300, "unknown_entries": 100, "foreign_entries": 200, "foreign_identities": 200, "tag_collision": 20, "wrong_passphrases": 50, "near_identities": 400, "hopeless_entries": 150, "twins": 90, "by:scrypt": 20, "by:ssh-rsa": 20, "by:ssh-ed25519": 20, "by:x25519": 20}
ALL = ("x25519", "ssh-ed25519", "ssh-rsa", "scrypt")


def opened(ctx, ct, identities, data, what, match):
    box = set(identities) if ctx.rng.random() < 0.2 else gen.collection(ctx.rng, identities)
    with gen.muted():
        got = ctx.must(f"decrypting {what}", gen.age_decrypt, box, ct)
    ctx.check(got == data, f"wrong plaintext from {what}")
    ctx.count("decrypted")
    for m in match:
        ctx.count("by:" + m.kind)


def ring(ctx):
    rng = ctx.rng
    mine = gen.parties(rng, rng.choice([1, 1, 2]), ALL)
    others = gen.parties(rng, rng.choice([0, 1, 2, 4, 8]), ALL)
    strangers = gen.parties(rng, rng.choice([0, 1, 3, 6]), ALL)
    own = {repr(p) for p in mine}
    others = [p for p in others if repr(p) not in own]
    strangers = [p for p in strangers if repr(p) not in own]
    extra = [gen.unknown_stanza(rng) for _ in range(rng.choice([0, 0, 1, 2, 5]))]
    parts = mine + others
    rng.shuffle(parts)
    ids = [p.identity for p in mine + strangers]
    if rng.random() < 0.2:
        ids += [rng.choice(ids)]
    rng.shuffle(ids)
    data = gen.plain(rng, None, 3000)
    real = rng.random() < 0.5 and not any(p.kind == "scrypt" for p in parts)
    if real:
        fk = None
        ct = gen.age_encrypt([p.recipient for p in parts], data)
        extra = []
    else:
        ct = gen.ref_file(rng, parts, data, extra)
    opened(ctx, ct, ids, data, f"a file for {parts} with {strangers} also on the ring", mine)
    ctx.count("unknown_entries", len(extra))
    ctx.count("foreign_entries", len(others))
    ctx.count("foreign_identities", len(strangers))
    ctx.count("wrong_passphrases", sum(p.kind == "scrypt" for p in strangers))
    ctx.eval(([p.kind for p in parts], [type(i).__name__ for i in ids], [s.type for s in extra], real))
    ctx.sample(entries=parts, matching=mine, strangers=strangers, unknown=extra)


def collision(ctx):
    """another user's SSH key whose 4-byte tag is the same as ours"""
    rng = ctx.rng
    kind = rng.choice(["ssh-rsa", "ssh-rsa", "ssh-ed25519"])
    me, other = gen.parties(rng, 2, (kind,))
    target = gen.party(rng, ALL)
    mine = rng.choice([[me], [target], [me, target]])
    if target.kind == kind and repr(target) in (repr(me), repr(other)):
        mine = [me]
    fk = rng.randbytes(16)
    data = gen.plain(rng, None, 500)
    tag = me.wrap(rng, fk).args[0]
    sts = []
    foreign = other.wrap(rng, fk)
    if kind == "ssh-rsa" and rng.random() < 0.5:
        # same modulus length or not, random ciphertext
        foreign.body = rng.randbytes(len(foreign.body))
    foreign.args[0] = tag
    sts = [foreign] + [m.wrap(rng, fk) for m in mine]
    rng.shuffle(sts)
    ids = [me.identity] + [m.identity for m in mine if m is not me]
    rng.shuffle(ids)
    ct = ref.encrypt(fk, rng.randbytes(16), sts, data)
    opened(ctx, ct, ids, data, f"a file with an entry of {other} carrying the tag of {me}", mine)
    ctx.count("tag_collision")
    ctx.eval(("collision", kind, [s.type for s in sts], [m.kind for m in mine], len(foreign.body)))
    ctx.sample(entries=sts, matching=mine)


def passphrases(ctx):
    """several passphrase entries, many wrong passphrases on the ring"""
    rng = ctx.rng
    good = gen.PParty(rng.randbytes(8))
    entries = [gen.PParty(rng.randbytes(8)) for _ in range(rng.randrange(0, 6))] + [good]
    entries += gen.parties(rng, rng.randrange(0, 3), ("x25519", "ssh-rsa"))
    rng.shuffle(entries)
    wrong = [gen.PParty(rng.randbytes(8)) for _ in range(rng.randrange(0, 8))]
    ids = [w.identity for w in wrong] + [good.identity]
    rng.shuffle(ids)
    data = gen.plain(rng, None, 500)
    opened(ctx, gen.ref_file(rng, entries, data), ids, data, f"{entries} with {wrong}", [good])
    ctx.count("wrong_passphrases", len(wrong))
    ctx.eval(("pw", [p.kind for p in entries], len(wrong)))


def near(ctx):
    """other identities and entries that resemble ours: the passphrase in another spelling, the same salt, share or tag"""
    rng = ctx.rng
    pw = rng.choice([rng.choice(gen.PASSWORDS), "".join(rng.choices("abcXYZ 0159-", k=rng.choice([3, 8, 20]))).encode(), rng.randbytes(12)]) or b"x"
    good = gen.PParty(pw)
    wrong = [gen.PParty(v) for v in variants(rng, pw) if v]
    wrong = rng.sample(wrong, min(len(wrong), rng.randrange(1, 9)))
    ids = [w.identity for w in wrong]
    ids.insert(rng.choice([0, len(ids), rng.randrange(len(ids) + 1)]), good.identity)
    fk, salt = rng.randbytes(16), rng.randbytes(16)
    data = gen.plain(rng, None, 200)
    entries = [good.wrap(rng, fk, 3)]
    if rng.random() < 0.5:
        # somebody's entry with the same salt and work factor
        entries = [ref.wrap_scrypt(fk, pw, salt, 3)]
        entries.insert(rng.randrange(2), ref.wrap_scrypt(fk, rng.choice(wrong).password + b"?", salt, 3))
    opened(ctx, ref.encrypt(fk, rng.randbytes(16), entries, data), ids, data, f"a file for {good} with {wrong} on the ring too", [good])
    ctx.count("near_identities", len(wrong))
    ctx.count("wrong_passphrases", len(wrong))
    ctx.eval(("near", pw, len(wrong), len(entries)))
    # one ephemeral share for all recipients
    esk = rng.randbytes(32)
    a, b = gen.XParty(rng.randbytes(32)), gen.XParty(rng.randbytes(32))
    sts = [ref.wrap_x25519(fk, p.pk, esk) for p in (a, b)]
    me, other = rng.choice([(a, b), (b, a)])
    sk = bytearray(me.sk)
    sk[rng.randrange(1, 31)] ^= 1 << rng.randrange(8)
    ids = [gen.XParty(bytes(sk)).identity, me.identity]
    rng.shuffle(ids)
    opened(ctx, ref.encrypt(fk, rng.randbytes(16), sts, data), ids, data, "a file whose entries have one ephemeral share", [me])
    ctx.count("near_identities")
    ctx.eval(("near-x", me.pk))


def twins(ctx):
    """two keys of ours with the same tag; the file is for one of them"""
    rng = ctx.rng
    for _ in range(6):
        a, b = gen.twins(rng)
        other = gen.party(rng)
        parts = rng.choice([[a], [b], [other, a], [a, other], [b, a]])
        ids = [a.identity, b.identity] + ([other.identity] if rng.random() < 0.3 else [])
        rng.shuffle(ids)
        fk = rng.randbytes(16)
        if rng.random() < 0.5:
            ct = gen.age_encrypt([p.recipient for p in parts], b"twins")
        else:
            ct = ref.encrypt(fk, rng.randbytes(16), [p.wrap(rng, fk) for p in parts], b"twins")
        opened(ctx, ct, ids, b"twins", f"a file for {parts} with {a} and {b}, whose tags are the same", parts)
        ctx.count("twins")
        ctx.eval(("twins", a.name, [p.kind for p in parts]))


def hopeless(ctx):
    """entries for other people that nobody could open: passphrase entries beyond the permitted work factor, entries whose body or
    share makes no sense; ours decrypts all the same"""
    rng = ctx.rng
    for _ in range(4):
        me = gen.party(rng, ("x25519", "ssh-ed25519", "ssh-rsa", "x25519", "scrypt"))
        fk = rng.randbytes(16)
        odd = [ref.Stanza("scrypt", [ref.b64(rng.randbytes(16)), str(rng.choice([23, 24, 30, 31, 32, 62, 63, 64, 65, 99, 1000]))], rng.randbytes(32)) for _ in range(rng.randrange(1, 4))]
        # passphrase entries with a body of another length
        odd += [ref.Stanza("scrypt", [ref.b64(rng.randbytes(16)), "3"], rng.randbytes(rng.choice([0, 1, 16, 31, 33, 48, 100]))) for _ in range(rng.randrange(2))]
        # entries of the kinds of other identities
        odd += [ref.Stanza("ssh-rsa", [ref.b64(rng.randbytes(4))], rng.randbytes(rng.choice([0, 1, 255, 256, 257, 512])))] * rng.randrange(2)
        odd += [ref.Stanza("ssh-ed25519", [ref.b64(rng.randbytes(4)), ref.b64(rng.randbytes(32))], rng.randbytes(rng.choice([0, 31, 32, 33])))] * rng.randrange(2)
        odd += [ref.Stanza("X25519", [ref.b64(rng.randbytes(32))], rng.randbytes(rng.choice([16, 31, 32, 33])))] * rng.randrange(2)
        sts = odd + [me.wrap(rng, fk)]
        rng.shuffle(sts)
        ids = [me.identity]
        if rng.random() < 0.5:
            ids.insert(rng.randrange(2), gen.party(rng).identity)
        opened(ctx, ref.encrypt(fk, rng.randbytes(16), sts, b"ours"), ids, b"ours", f"{sts} with {me}", [me])
        ctx.count("hopeless_entries", len(odd))
        ctx.eval(("hopeless", tuple(s.type for s in sts), me.kind))


def crowd(ctx):
    """many recipients and identities; the matching pair at extreme places"""
    rng = ctx.rng
    n = rng.choice([20, 60, 150, 300])
    others = [gen.XParty(rng.randbytes(32)) for _ in range(n)]
    me = gen.party(rng, ("x25519", "ssh-ed25519", "ssh-rsa"))
    pos = rng.choice([0, n // 2, n])
    parts = others[:pos] + [me] + others[pos:]
    strangers = [gen.XParty(rng.randbytes(32)) for _ in range(rng.choice([0, 5, 30]))]
    ids = [s.identity for s in strangers]
    ids.insert(rng.choice([0, len(ids)]), me.identity)
    data = gen.plain(rng, None, 1000)
    ct = gen.age_encrypt([p.recipient for p in parts], data)
    opened(ctx, ct, ids, data, f"a file with {n + 1} entries, ours at {pos}", [me])
    ctx.count("foreign_entries", n)
    ctx.count("foreign_identities", len(strangers))
    ctx.eval(("crowd", n, pos, len(strangers), me.kind))


def pairs(ctx):
    """all ordered pairs (entry kind before ours, other identity kind before ours)"""
    rng = ctx.rng
    kinds = ALL + ("unknown",)
    for ek in kinds:
        for ik in ALL:
            for mk in ALL:
                me, e, i = gen.party(rng, (mk,)), None, gen.party(rng, (ik,))
                if repr(i) == repr(me):
                    continue
                extra = []
                parts = [me]
                if ek == "unknown":
                    extra = [gen.unknown_stanza(rng)]
                else:
                    e = gen.party(rng, (ek,))
                    parts = [e, me] if rng.random() < 0.7 else [me, e]
                fk = rng.randbytes(16)
                sts = extra + [p.wrap(rng, fk) for p in parts]
                ct = ref.encrypt(fk, rng.randbytes(16), sts, b"pairs")
                opened(ctx, ct, [i.identity, me.identity], b"pairs", f"{sts} with {i} and {me}", [me])
                ctx.count("foreign_entries")
                ctx.count("foreign_identities")
                ctx.count("unknown_entries", len(extra))
                ctx.eval(("pair", ek, ik, mk))


def families(tier):
    q = tier == "quick"
    return [
        ("ring", 500 if q else 8000, ring),
        ("collision", 100 if q else 1500, collision),
        ("passphrases", 60 if q else 800, passphrases),
        ("near", 120 if q else 2000, near),
        ("twins", 30 if q else 400, twins),
        ("hopeless", 40 if q else 600, hopeless),
        ("crowd", 24 if q else 200, crowd),
        ("pairs", 8 if q else 64, pairs),
    ]
