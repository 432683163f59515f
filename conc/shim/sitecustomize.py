import time,os; time.clock=time.perf_counter
try:
  import Crypto.Random
  class R:
    def read(self,n): return os.urandom(n)
    def flush(self): pass
    def close(self): pass
    def reinit(self): pass
  Crypto.Random.new=lambda *a: R()
  Crypto.Random.get_random_bytes=os.urandom
  from Crypto.Cipher import AES
  from M2Crypto import EVP
  class C:
    block_size=16
    def __init__(s,k,m,iv): s.a=('aes_%d_cbc'%(len(k)*8),k,iv); s.c={}
    def _g(s,op):
      if op not in s.c: s.c[op]=EVP.Cipher(alg=s.a[0],key=s.a[1],iv=s.a[2],op=op,padding=0)
      return s.c[op]
    def encrypt(s,x): assert len(x)%16==0; return s._g(1).update(x)
    def decrypt(s,x): assert len(x)%16==0;return s._g(0).update(x)
  AES.new=lambda k,m,iv: C(k,m,iv)
except ImportError: pass
