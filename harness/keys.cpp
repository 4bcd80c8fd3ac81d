#include "dv.h"
#include "key_container.h"
#include "AsymmetricKeyPair.h"
using namespace keys;
static Bytes any(size_t n, const char *name) { Bytes b(n); if (n) dv_sym(b.data(), n, name); return b; }
HARNESS(plain) {
  int parts = dv_choose("parts", 1, 3), sec = dv_choose("secure", 0, 1), z = dv_choose("sizes", 0, 6); const size_t *n = sizes[z];
  if ((parts == 1 && !n[0]) || (parts == 2 && n[0] + n[1] == 0)) { dv_cover("end"); return; }
  Bytes key = any(n[0], "key"), iv = any(parts > 1 ? n[1] : 0, "iv"), info = any(parts > 2 ? n[2] : 0, "info");
  container(make<SymmetricKey>(parts, sec, key, iv, info), key, iv, info);
}
// an asymmetric key: type, parameter set, primitive and polynomial; a pair hands out the two keys it was given
HARNESS(asymmetric) {
  using namespace CEX::Asymmetric; using namespace CEX::Enumeration; int sec = dv_choose("secure", 0, 1), z = dv_choose("size", 0, 3); const size_t n = z == 0 ? 1 : z == 1 ? 32 : z == 2 ? 255 : 1000; Bytes poly = any(n, "polynomial"), pub = any(7, "public"), tag = any(5, "tag");
  uint8_t t[3]; dv_sym(t, 3, "types"); dv_assume(t[0] != 0 && t[1] != 0 && t[2] != 0); auto cls = static_cast<AsymmetricKeyTypes>(t[0]); auto par = static_cast<AsymmetricParameters>(t[1]); auto prim = static_cast<AsymmetricPrimitives>(t[2]);
  auto *k = sec ? new AsymmetricKey(lock(poly), prim, cls, par) : new AsymmetricKey(poly, prim, cls, par);
  auto has = [&](AsymmetricKey *x, const char *w) { same(x->Polynomial(), poly, w); same(x->SecurePolynomial(), poly, w); dv_ensure(x->PrimitiveType() == prim && x->KeyClass() == cls && x->Parameters() == par, w); };
  has(k, "key"); SBytes s = AsymmetricKey::Serialize(*k); dv_ensure(s.size() == n + 3, "the size of the stream"); auto *d = AsymmetricKey::DeSerialize(s); has(d, "restored key"); has(k, "key afterwards");
  auto *p = new AsymmetricKey(pub, prim, cls, par); AsymmetricKeyPair kp(k, p, tag); dv_ensure(kp.PrivateKey() == k && kp.PublicKey() == p, "the pair hands out its keys"); same(kp.Tag(), tag, "tag"); same(kp.PublicKey()->Polynomial(), pub, "public key"); has(kp.PrivateKey(), "private key"); dv_cover("end");
}
