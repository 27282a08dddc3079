"""Self-test of the reference against published vectors (so that the oracle is not the suspect)."""
from mon import ref

h = bytes.fromhex


def main():
    # RFC 7748 5.2 and 6.1
    assert ref.x25519(h("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), h("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")) == h("c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552")
    # RFC 8439 2.8.2
    key = bytes(range(0x80, 0xA0))
    nonce = h("070000004041424344454647")
    aad = h("50515253c0c1c2c3c4c5c6c7")
    pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
    assert ref.aead_pure(key, nonce, pt, aad)[-16:] == h("1ae10b594f09e26a7e902ecbd0600691")
    # RFC 5869 A.1
    assert ref.hkdf(b"\x0b" * 22, bytes(range(13)), h("f0f1f2f3f4f5f6f7f8f9"), 42) == h("3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865")
    # RFC 4231 case 2
    assert ref.hmac256(b"Jefe", b"what do ya want for nothing?") == h("5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")
    # RFC 7914 section 12
    assert ref.scrypt_pure(b"", b"", 16, 1, 1, 64)[:16] == h("77d6576238657b203b19ca42c18a0497")
    assert ref.scrypt(b"pleaseletmein", b"SodiumChloride", 14, 8, 1, 64)[:16] == h("7023bdcb3afd7348461c06cd81fd38eb")
    # RFC 8032 test 1
    assert ref.ed_public(h("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60")) == h("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a")
    # BIP-173
    assert ref.bech32("a", b"") == "a12uel5l"
    for x in ref.LOW_ORDER:
        assert not any(ref.x25519(b"\x55" * 32, x))
    return True


if __name__ == "__main__":
    main()
