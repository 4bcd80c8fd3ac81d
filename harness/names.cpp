#include "dv.h"
#include "AeadModeFromName.h"
#include "BlockCipherFromName.h"
#include "CipherModeFromName.h"
#include "DigestFromName.h"
#include "KdfFromName.h"
#include "MacFromName.h"
#include "PaddingFromName.h"
#include "StreamCipherFromName.h"
#include "CMAC.h"
#include "GMAC.h"
#include "HBA.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ExceptionTypes.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "McElieceParameters.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"
using namespace CEX; using namespace CEX::Enumeration; using namespace CEX::Helper;
// every member of an enumeration has a name of its own, and the name leads back to it
template<class E, class C> static void names(const char *what) {
  size_t n = 0;
  for (unsigned v = 0; v < 256; v++) {
    E e = static_cast<E>(v); std::string s = C::ToName(e); if (s.empty() || s == "None") continue;
    E b = C::FromName(s); dv_ensure(b == e, what); if (b != e) dv_print(what, v); n++;
  }
  dv_ensure(n > 0, what);
}
#define N(E, C) names<E, C>("the name of a member of " #E " leads back to it")
HARNESS(convert) {
  N(AeadModes, AeadModeConvert); N(AsymmetricCiphers, AsymmetricCipherConvert); N(AsymmetricParameters, AsymmetricTransformConvert); N(AsymmetricPrimitives, AsymmetricPrimitiveConvert); N(AsymmetricSigners, AsymmetricSignerConvert);
  N(BlockCiphers, BlockCipherConvert); N(CipherModes, CipherModeConvert); N(Digests, DigestConvert); N(DilithiumParameters, DilithiumParameterConvert); N(Drbgs, DrbgConvert); N(ECDHParameters, ECDHParameterConvert);
  N(ExceptionTypes, ExceptionTypeConvert); N(Kdfs, KdfConvert); N(KmacModes, KmacModeConvert); N(Kms, KmsConvert); N(KpaModes, KbaModeConvert); N(KyberParameters, KyberParameterConvert); N(Macs, MacConvert); N(McElieceParameters, McElieceParameterConvert);
  N(PaddingModes, PaddingModeConvert); N(Prngs, PrngConvert); N(Providers, ProviderConvert); N(SHA2Digests, SHA2DigestConvert); N(SecurityPolicy, SecurityPolicyConvert); N(ShakeModes, ShakeModeConvert); N(SphincsPlusParameters, SphincsPlusParameterConvert);
  N(StreamAuthenticators, StreamAuthenticatorConvert); N(StreamCiphers, StreamCipherConvert); N(SymmetricCiphers, SymmetricCipherConvert); N(ThreefishModes, ThreefishModeConvert); N(XmssParameters, XmssParameterConvert); dv_cover("end");
}
template<class E> static void want(E got, E e, const char *what, unsigned v) { dv_ensure(got == e, what); if (got != e) dv_print(what, v); }
static const BlockCiphers CIPHERS[] = {BlockCiphers::AES, BlockCiphers::Serpent, BlockCiphers::RHXH256, BlockCiphers::RHXH512, BlockCiphers::RHXS256, BlockCiphers::RHXS512, BlockCiphers::SHXH256, BlockCiphers::SHXH512, BlockCiphers::SHXS256, BlockCiphers::SHXS512};
HARNESS(block) {
  const CipherModes ms[] = {CipherModes::CBC, CipherModes::CFB, CipherModes::CTR, CipherModes::ECB, CipherModes::ICM, CipherModes::OFB};
  for (BlockCiphers e : CIPHERS) {
    auto *c = BlockCipherFromName::GetInstance(e); want(c->Enumeral(), e, "block cipher", (unsigned)e); dv_ensure(c->Name() == BlockCipherConvert::ToName(e), "name of the block cipher");
    for (CipherModes m : ms) {
      auto *x = CipherModeFromName::GetInstance(e, m); want(x->Enumeral(), m, "mode", (unsigned)m); want(x->CipherType(), e, "cipher of the mode", (unsigned)e); want(x->Engine()->Enumeral(), e, "engine of the mode", (unsigned)e); delete x;
      auto *y = CipherModeFromName::GetInstance(c, m); want(y->Enumeral(), m, "mode over a cipher", (unsigned)m); want(y->CipherType(), e, "cipher of the mode", (unsigned)e); dv_ensure(y->Engine() == c, "the given instance is used"); delete y;
    }
    want(c->Enumeral(), e, "block cipher afterwards", (unsigned)e); delete c;
  }
  dv_cover("end");
}
HARNESS(aead) {
  const struct { AeadModes m, e; StreamAuthenticators a; size_t tag; } ms[] = {{AeadModes::GCM, AeadModes::GCM, StreamAuthenticators::None, 16}, {AeadModes::HBAH256, AeadModes::HBA, StreamAuthenticators::HMACSHA2256, 32}, {AeadModes::HBAH512, AeadModes::HBA, StreamAuthenticators::HMACSHA2512, 64}, {AeadModes::HBAS256, AeadModes::HBA, StreamAuthenticators::KMAC256, 32}, {AeadModes::HBAS512, AeadModes::HBA, StreamAuthenticators::KMAC512, 64}};
  for (BlockCiphers e : {BlockCiphers::AES, BlockCiphers::RHXH256, BlockCiphers::SHXS512}) for (auto &m : ms) for (int own = 0; own < 2; own++) {
    auto *x = own ? AeadModeFromName::GetInstance(BlockCipherFromName::GetInstance(e), m.m) : AeadModeFromName::GetInstance(e, m.m);
    want(x->Enumeral(), m.e, "mode", (unsigned)m.m); dv_ensure(x->TagSize() == m.tag, "tag size"); if (m.e == AeadModes::GCM) { std::string n = x->Name(), w = BlockCipherConvert::ToName(e); dv_ensure(n.size() >= w.size() && n.compare(n.size() - w.size(), w.size(), w) == 0, "cipher of GCM"); }
    if (m.e == AeadModes::HBA) dv_ensure(x->Name() == "HBA-" + BlockCipherConvert::ToName(e) + "-" + StreamAuthenticatorConvert::ToName(m.a), "authenticator");
    delete x;
  }
  dv_cover("end");
}
HARNESS(digests) {
  const struct { Digests d; size_t size, block; int pad; } ds[] = {{Digests::Blake256, 32, 64, 0}, {Digests::Blake512, 64, 128, 0}, {Digests::SHA3256, 32, 136, 0}, {Digests::SHA3512, 64, 72, 0}, {Digests::SHA2256, 32, 64, 9}, {Digests::SHA2512, 64, 128, 17}, {Digests::Skein256, 32, 32, 0}, {Digests::Skein512, 64, 64, 0}, {Digests::Skein1024, 128, 128, 0}};
  for (auto &d : ds) {
    for (int p = 0; p < 2; p++) { auto *x = DigestFromName::GetInstance(d.d, p); want(x->Enumeral(), d.d, "digest", (unsigned)d.d); dv_ensure(x->DigestSize() == d.size, "digest size"); dv_ensure(x->BlockSize() == d.block, "block size"); delete x; }
    dv_ensure(DigestFromName::GetDigestSize(d.d) == d.size, "GetDigestSize"); dv_ensure(DigestFromName::GetBlockSize(d.d) == d.block, "GetBlockSize"); dv_ensure(DigestFromName::GetPaddingSize(d.d) == (size_t)d.pad, "GetPaddingSize");
  }
  dv_cover("end");
}
HARNESS(kdfs) {
  for (Kdfs e : {Kdfs::HKDF256, Kdfs::HKDF512, Kdfs::KDF2256, Kdfs::KDF2512, Kdfs::PBKDF2256, Kdfs::PBKDF2512, Kdfs::SCBKDF128, Kdfs::SCBKDF256, Kdfs::SCBKDF512, Kdfs::SHAKE128, Kdfs::SHAKE256, Kdfs::SHAKE512}) { auto *k = KdfFromName::GetInstance(e); want(k->Enumeral(), e, "derivation function", (unsigned)e); delete k; }
  const struct { BlockCipherExtensions x; Kdfs k; } xs[] = {{BlockCipherExtensions::HKDF256, Kdfs::HKDF256}, {BlockCipherExtensions::HKDF512, Kdfs::HKDF512}, {BlockCipherExtensions::SHAKE256, Kdfs::SHAKE256}, {BlockCipherExtensions::SHAKE512, Kdfs::SHAKE512}};
  for (auto &x : xs) { auto *k = KdfFromName::GetInstance(x.x); want(k->Enumeral(), x.k, "derivation function of an extension", (unsigned)x.k); delete k; }
  dv_cover("end");
}
HARNESS(macs) {
  const struct { Macs m, e; BlockCiphers c; size_t tag; } ms[] = {{Macs::CMAC, Macs::CMAC, BlockCiphers::AES, 16}, {Macs::CMACRHXH256, Macs::CMAC, BlockCiphers::RHXH256, 16}, {Macs::CMACRHXH512, Macs::CMAC, BlockCiphers::RHXH512, 16}, {Macs::CMACRHXS256, Macs::CMAC, BlockCiphers::RHXS256, 16}, {Macs::CMACRHXS512, Macs::CMAC, BlockCiphers::RHXS512, 16},
    {Macs::GMAC, Macs::GMAC, BlockCiphers::AES, 16}, {Macs::GMACRHXH256, Macs::GMAC, BlockCiphers::RHXH256, 16}, {Macs::GMACRHXH512, Macs::GMAC, BlockCiphers::RHXH512, 16}, {Macs::GMACRHXS256, Macs::GMAC, BlockCiphers::RHXS256, 16}, {Macs::GMACRHXS512, Macs::GMAC, BlockCiphers::RHXS512, 16},
    {Macs::HMACSHA2256, Macs::HMACSHA2256, BlockCiphers::None, 32}, {Macs::HMACSHA2512, Macs::HMACSHA2512, BlockCiphers::None, 64}, {Macs::KMAC256, Macs::KMAC256, BlockCiphers::None, 32}, {Macs::KMAC512, Macs::KMAC512, BlockCiphers::None, 64}, {Macs::KPA128, Macs::KPA128, BlockCiphers::None, 16}, {Macs::KPA256, Macs::KPA256, BlockCiphers::None, 32}, {Macs::KPA512, Macs::KPA512, BlockCiphers::None, 64}, {Macs::Poly1305, Macs::Poly1305, BlockCiphers::None, 16}};
  for (auto &m : ms) {
    auto *x = MacFromName::GetInstance(m.m); dv_ensure(x->Enumeral() == m.e || x->Enumeral() == m.m, "MAC"); if (x->Enumeral() != m.e) dv_print("mac", (uint64_t)m.m); dv_ensure(x->TagSize() == m.tag, "tag size"); if (x->TagSize() != m.tag) dv_print("mac tag", (uint64_t)m.m);
    if (m.e == Macs::CMAC) want(static_cast<Mac::CMAC *>(x)->CipherType(), m.c, "cipher of CMAC", (unsigned)m.m);
    if (m.e == Macs::GMAC) want(static_cast<Mac::GMAC *>(x)->CipherType(), m.c, "cipher of GMAC", (unsigned)m.m);
    delete x;
  }
  for (StreamAuthenticators a : {StreamAuthenticators::HMACSHA2256, StreamAuthenticators::HMACSHA2512, StreamAuthenticators::KMAC256, StreamAuthenticators::KMAC512, StreamAuthenticators::Poly1305}) { auto *x = MacFromName::GetInstance(a); want(x->Enumeral(), static_cast<Macs>(a), "authenticator", (unsigned)a); delete x; }
  for (PaddingModes e : {PaddingModes::ESP, PaddingModes::PKCS7, PaddingModes::X923, PaddingModes::ZeroOne}) { auto *p = PaddingFromName::GetInstance(e); want(p->Enumeral(), e, "padding", (unsigned)e); delete p; }
  dv_cover("end");
}
HARNESS(streams) {
  const struct { StreamCiphers s; const char *name; bool auth; } ss[] = {{StreamCiphers::ChaChaP20, "ChaChaP20", false}, {StreamCiphers::CSXR20K256, "ChaChaP20", true}, {StreamCiphers::CSX512, "CSX512", false}, {StreamCiphers::CSXR80K512, "CSX512", true}, {StreamCiphers::RCS, "RCS", false}, {StreamCiphers::RCSK256, "RCS", true}, {StreamCiphers::RCSK512, "RCS", true}, {StreamCiphers::RWS, "RWS", false}, {StreamCiphers::RWSK256, "RWS", true}, {StreamCiphers::RWSK512, "RWS", true}, {StreamCiphers::TSX256, "TSX256", false}, {StreamCiphers::TSXR72K256, "TSX256", true}, {StreamCiphers::TSX512, "TSX512", false}, {StreamCiphers::TSXR96K512, "TSX512", true}, {StreamCiphers::TSX1024, "TSX1024", false}, {StreamCiphers::TSXR120K512, "TSX1024", true}};
  for (auto &s : ss) { auto *c = StreamCipherFromName::GetInstance(s.s); std::string n = c->Name(), w = s.name; bool ok = n.size() >= w.size() && n.compare(0, w.size(), w) == 0; dv_ensure(ok, "stream cipher"); if (!ok) dv_print("stream cipher", (uint64_t)s.s); dv_ensure(c->IsAuthenticator() == s.auth, "authentication"); delete c; }
  dv_cover("end");
}
