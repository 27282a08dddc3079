"""Generate the RSA/DSA fixture keys once (committed; slow to generate, no secrets)."""
import os
from cryptography.hazmat.primitives.asymmetric import rsa, dsa
from cryptography.hazmat.primitives.serialization import Encoding, PrivateFormat, NoEncryption
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")
for bits, exp in [(1024,65537),(1024,3),(1536,65537),(2047,65537),(2048,65537),(2048,3),(2056,65537),(2064,65537),(3072,65537),(3079,65537),(3080,65537),(4096,65537)]:
    p = os.path.join(out, f"rsa{bits}e{exp}.pem")
    if not os.path.exists(p):
        k = rsa.generate_private_key(exp, bits)
        open(p,"wb").write(k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
for i in range(2):
    p = os.path.join(out, f"rsa2048b{i}.pem")
    if not os.path.exists(p):
        k = rsa.generate_private_key(65537, 2048)
        open(p,"wb").write(k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
p = os.path.join(out, "dsa1024.pem")
if not os.path.exists(p):
    k = dsa.generate_private_key(1024)
    open(p,"wb").write(k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
