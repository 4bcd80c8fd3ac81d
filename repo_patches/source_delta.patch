From 677aa260e90a9dadac60a2c23982146677c0e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:44 +0000
Subject: [PATCH 01/33] fix: SHA2 horizontal permutations read lane 3 from
 offset 192, the start of its block, not 196

---
 CEX/SHA2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2.h b/CEX/SHA2.h
index 580b4e5..1c7f3c5 100644
--- a/CEX/SHA2.h
+++ b/CEX/SHA2.h
@@ -863,7 +863,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
@@ -953,7 +953,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
-- 
2.43.0


From 4cb56bd9a8901f4ee9e9f534469bb92af86fdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 02/33] fix: the counter increase functions keep the carry when
 the addend byte and carry sum to 256

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..58de2d0 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (ndst == odst && carry != 0)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From 7fa7cef0b44cb9ad26704ed92f970ae347001ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 03/33] fix: LeIncreaseW carries into the second word when
 input and output are the same array

---
 CEX/IntegerTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 58de2d0..d471cfa 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2165,9 +2165,9 @@ public:
 		CEXASSERT(Output.size() >= Input.size(), "Output size is too small");
 
 		MemoryTools::Copy(Input, 0, Output, 0, Input.size() * sizeof(ArrayA::value_type));
-		Output[0] += static_cast<typename ArrayA::value_type>(Length);
+		Output[0] += static_cast<typename ArrayB::value_type>(Length);
 
-		if (Output[0] < Input[0])
+		if (Output[0] < static_cast<typename ArrayB::value_type>(Length))
 		{
 			++Output[1];
 		}
-- 
2.43.0


From f45151f03851f91128c8f4cae497484bbee19d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:26 +0000
Subject: [PATCH 04/33] fix: MemoryTools AND and OR combine every trailing
 element, not only the first one

---
 CEX/MemoryTools.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..de1e595 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,9 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			for (i = 0; i < (Length - pctr) / OTPLEN; ++i)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				Output[OutOffset + (pctr / OTPLEN) + i] &= Input[InOffset + (pctr / INPLEN) + i];
 			}
 		}
 	}
@@ -1100,7 +1099,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1139,9 +1137,9 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			for (i = 0; i < (Length - pctr) / OTPLEN; ++i)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				Output[OutOffset + (pctr / OTPLEN) + i] |= Input[InOffset + (pctr / INPLEN) + i];
 			}
 		}
 	}
-- 
2.43.0


From c4f245a15902d223c66bba0c2ec945bee6a47685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 05/33] fix: SHA2 tree hashing passes every leaf digest to the
 root, and clears the block it pads

---
 CEX/SHA2256.cpp | 4 ++--
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..eeed0b9 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -387,7 +387,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..3fb4c82 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From 6524bea9c0530511c7fb681d1b03520c9a601711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 06/33] fix: BLAKE2sp/bp lost half of a full message buffer,
 did not count bulk blocks, and miscounted empty leaves

---
 CEX/Blake256.cpp | 7 +++++--
 CEX/Blake512.cpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..d31c67b 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -235,7 +235,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, Blake::BLAKE256_RATE_SIZE);
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
@@ -356,7 +356,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2UL * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -453,6 +453,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -580,6 +582,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..e066f12 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -237,7 +237,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, Blake::BLAKE512_RATE_SIZE);
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -270,7 +270,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -357,7 +357,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2UL * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -454,6 +454,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -581,6 +583,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From 9203a6a131054302e19637f7ee30b610a02382ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 07/33] fix: a digest built with more leaves than processors
 skipped the blocks of the other leaves

---
 CEX/ParallelOptions.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/CEX/ParallelOptions.cpp b/CEX/ParallelOptions.cpp
index 069398f..890a8ab 100644
--- a/CEX/ParallelOptions.cpp
+++ b/CEX/ParallelOptions.cpp
@@ -22,7 +22,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool SimdMultiply, size_t Res
 	m_isParallel(false),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(0),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -52,7 +52,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, bool SimdMulti
 	m_isParallel(Parallel),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(0),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -85,7 +85,7 @@ ParallelOptions::ParallelOptions(size_t BlockSize, bool Parallel, size_t Paralle
 	m_isParallel(Parallel),
 	m_l1DataCacheReserved(ReservedCache),
 	m_l1DataCacheTotal(0),
-	m_overrideMaxDegree(false),
+	m_overrideMaxDegree(ParallelMaxDegree != 0),
 	m_parallelBlockSize(ParallelBlockSize),
 	m_parallelMaxDegree(ParallelMaxDegree),
 	m_parallelMinimumSize(0),
@@ -239,6 +239,12 @@ void ParallelOptions::Calculate()
 			m_parallelBlockSize /= 2;
 		}
 
+		// a user defined degree can exceed the cache size
+		if (m_parallelBlockSize < m_parallelMinimumSize)
+		{
+			m_parallelBlockSize = m_parallelMinimumSize;
+		}
+
 		// default to capability
 		m_isParallel = (m_processorCount > 1);
 		// on init only
@@ -363,7 +369,7 @@ void ParallelOptions::Detect()
 		m_processorCount--;
 	}
 
-	if (m_parallelMaxDegree > m_processorCount)
+	if (m_parallelMaxDegree > m_processorCount && !m_overrideMaxDegree)
 	{
 		m_parallelMaxDegree = m_processorCount;
 	}
-- 
2.43.0


From e2de41b4aaa2b48bbc7128318d31bf2a93f7d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 08/33] fix: SHA3 ParallelMaxDegree left the leaf states and
 buffer at their old size

---
 CEX/SHA3256.cpp | 8 ++++++++
 CEX/SHA3512.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..776a043 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -217,6 +217,14 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.clear();
+		m_dgtState.resize(Degree);
+		m_msgBuffer.clear();
+		m_msgBuffer.resize(Degree * Keccak::KECCAK256_RATE_SIZE);
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..4413011 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -217,6 +217,14 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 
 	m_parallelProfile.SetMaxDegree(Degree);
 
+	if (m_parallelProfile.IsParallel())
+	{
+		m_dgtState.clear();
+		m_dgtState.resize(Degree);
+		m_msgBuffer.clear();
+		m_msgBuffer.resize(Degree * Keccak::KECCAK512_RATE_SIZE);
+	}
+
 	Reset();
 }
 
-- 
2.43.0


From 5bbf15aa2a647eecf5f85492e4a0b9954512a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:09 +0000
Subject: [PATCH 09/33] fix: Skein512/1024 tree constructor allocated a
 one-block message buffer

---
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..7bcc807 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -68,7 +68,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..623ea0e 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -68,7 +68,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
-- 
2.43.0


From 0bed1a8bc94aea5badd1469e30c0692cedd87f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:52 +0000
Subject: [PATCH 10/33] fix: KMAC, cSHAKE: absorb encodings that cross the rate
 boundary; Keccak incremental absorb of an unaligned tail

---
 CEX/KMAC.cpp |  47 ++++++--------------
 CEX/Keccak.h | 122 ++++++++++++++++++++++++++-------------------------
 2 files changed, 75 insertions(+), 94 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..0959a7e 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -143,7 +143,6 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> buf(sizeof(size_t) + 1);
 	size_t blen;
-	size_t i;
 	size_t olen;
 
 	if (IsInitialized() == false)
@@ -154,20 +153,13 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-	if (m_kmacState->Position != m_kmacState->Buffer.size())
-	{
-		MemoryTools::Clear(m_kmacState->Buffer, m_kmacState->Position, m_kmacState->Buffer.size() - m_kmacState->Position);
-	}
 
+	// the encoded output length is the end of the message
 	olen = Output.size() - OutOffset;
-	blen = Keccak::RightEncode(buf, 0, static_cast<uint64_t>(olen) * sizeof(uint64_t));
-
-	for (i = 0; i < blen; i++)
-	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
-	}
+	blen = static_cast<size_t>(Keccak::RightEncode(buf, 0, static_cast<uint64_t>(olen) * sizeof(uint64_t)));
+	Update(buf, 0, blen);
 
-	m_kmacState->Position += blen;
+	MemoryTools::Clear(m_kmacState->Buffer, m_kmacState->Position, m_kmacState->Buffer.size() - m_kmacState->Position);
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
@@ -278,28 +270,15 @@ void KMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 void KMAC::LoadKey(const SecureVector<uint8_t> &Key, std::unique_ptr<KmacState> &State)
 {
 	std::array<uint8_t, BUFFER_SIZE> pad = { 0 };
-	size_t i;
-	uint64_t offset;
-
-	MemoryTools::Clear(pad, 0, pad.size());
-	offset = Keccak::LeftEncode(pad, 0, static_cast<uint64_t>(State->Rate));
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Key.size()) * sizeof(uint64_t));
-
-	if (Key.size() != 0)
-	{
-		for (i = 0; i < Key.size(); ++i)
-		{
-			if (offset == State->Rate)
-			{
-				Keccak::FastAbsorb(pad, 0, State->Rate, State->State);
-				Permute(State);
-				offset = 0;
-			}
-
-			pad[offset] = Key[i];
-			++offset;
-		}
-	}
+	std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+	size_t elen;
+	size_t offset;
+
+	elen = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(State->Rate)));
+	offset = Keccak::AbsorbBytes(enc, elen, pad, 0, State->Rate, State->State);
+	elen = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Key.size()) * sizeof(uint64_t)));
+	offset = Keccak::AbsorbBytes(enc, elen, pad, offset, State->Rate, State->State);
+	offset = Keccak::AbsorbBytes(Key, Key.size(), pad, offset, State->Rate, State->State);
 
 	MemoryTools::Clear(pad, offset, BUFFER_SIZE - offset);
 	offset = (offset % sizeof(uint64_t) == 0) ? offset : offset + (sizeof(uint64_t) - (offset % sizeof(uint64_t)));
diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..fae9b22 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -309,6 +309,8 @@ public:
 
 		if (InLength > 0)
 		{
+			t.fill(0);
+
 			for (i = 0; i < InLength; ++i)
 			{
 				t[i] = Input[InOffset + i];
@@ -356,6 +358,38 @@ public:
 		MemoryTools::Copy(state, 0, Output, OutOffset, OTPLEN);
 	}
 
+	/// <summary>
+	/// Copy bytes to the rate sized buffer, absorbing the buffer into the state each time a byte follows a full one
+	/// </summary>
+	/// 
+	/// <param name="Input">The input uint8_t array, can be either a standard array or vector</param>
+	/// <param name="Length">The number of input bytes to process</param>
+	/// <param name="Pad">The buffer of bytes waiting to be absorbed</param>
+	/// <param name="Position">The number of bytes in the buffer</param>
+	/// <param name="Rate">The block input rate of permutation calls</param>
+	/// <param name="State">The permutations uint64 state array</param>
+	/// <param name="Rounds">The number of transformation rounds, the default is 24</param>
+	/// 
+	/// <returns>The number of bytes in the buffer</returns>
+	template<typename ArrayU8A, typename ArrayU8B, typename ArrayU64x25>
+	static size_t AbsorbBytes(const ArrayU8A &Input, size_t Length, ArrayU8B &Pad, size_t Position, size_t Rate, ArrayU64x25 &State, PermutationRounds Rounds = PermutationRounds::RX24)
+	{
+		for (size_t i = 0; i < Length; ++i)
+		{
+			if (Position == Rate)
+			{
+				FastAbsorb(Pad, 0, Rate, State);
+				Permute(State, Rounds);
+				Position = 0;
+			}
+
+			Pad[Position] = Input[i];
+			++Position;
+		}
+
+		return Position;
+	}
+
 	/// <summary>
 	/// Absorbs customization and name strings into the state
 	/// </summary>
@@ -369,45 +403,18 @@ public:
 	static void Customize(const ArrayU8 &Customization, const ArrayU8 &Name, size_t Rate, ArrayU64x25 &State, PermutationRounds Rounds = PermutationRounds::RX24)
 	{
 		std::array<uint8_t, KECCAK_STATE_BYTE_SIZE> pad = { 0 };
-		size_t i;
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		size_t elen;
 		size_t offset;
 
-		offset = LeftEncode(pad, 0, static_cast<uint64_t>(Rate));
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Name.size()) * 8);
-
-		if (Name.size() != 0)
-		{
-			for (i = 0; i < Name.size(); ++i)
-			{
-				if (offset == Rate)
-				{
-					FastAbsorb(pad, 0, Rate, State);
-					Permute(State, Rounds);
-					offset = 0;
-				}
-
-				pad[offset] = Name[i];
-				++offset;
-			}
-		}
-
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
-
-		if (Customization.size() != 0)
-		{
-			for (i = 0; i < Customization.size(); ++i)
-			{
-				if (offset == Rate)
-				{
-					FastAbsorb(pad, 0, Rate, State);
-					Permute(State, Rounds);
-					offset = 0;
-				}
-
-				pad[offset] = Customization[i];
-				++offset;
-			}
-		}
+		elen = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Rate)));
+		offset = AbsorbBytes(enc, elen, pad, 0, Rate, State, Rounds);
+		elen = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Name.size()) * 8));
+		offset = AbsorbBytes(enc, elen, pad, offset, Rate, State, Rounds);
+		offset = AbsorbBytes(Name, Name.size(), pad, offset, Rate, State, Rounds);
+		elen = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8));
+		offset = AbsorbBytes(enc, elen, pad, offset, Rate, State, Rounds);
+		offset = AbsorbBytes(Customization, Customization.size(), pad, offset, Rate, State, Rounds);
 
 		MemoryTools::Clear(pad, offset, pad.size() - offset);
 		offset = (offset % sizeof(uint64_t) == 0) ? offset : offset + (sizeof(uint64_t) - (offset % sizeof(uint64_t)));
@@ -565,7 +572,8 @@ public:
 		const std::vector<uint8_t> KNAME{ 0x4B, 0x4D, 0x41, 0x43 };
 		std::array<uint64_t, KECCAK_STATE_SIZE> state = { 0 };
 		std::array<uint8_t, KECCAK_STATE_BYTE_SIZE> pad = { 0 };
-		uint64_t poft;
+		std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+		size_t poft;
 		size_t blen;
 		size_t i;
 
@@ -573,24 +581,11 @@ public:
 		Customize(Customization, KNAME, Rate, state, Rounds);
 		
 		// absorb the key
-		poft = LeftEncode(pad, 0, static_cast<uint64_t>(Rate));
-		poft += LeftEncode(pad, poft, static_cast<uint64_t>(Key.size()) * sizeof(uint64_t));
-
-		if (Key.size() != 0)
-		{
-			for (i = 0; i < Key.size(); ++i)
-			{
-				if (poft == Rate)
-				{
-					FastAbsorb(pad, 0, Rate, state);
-					Permute(state, Rounds);
-					poft = 0;
-				}
-
-				pad[poft] = Key[i];
-				++poft;
-			}
-		}
+		blen = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Rate)));
+		poft = AbsorbBytes(enc, blen, pad, 0, Rate, state, Rounds);
+		blen = static_cast<size_t>(LeftEncode(enc, 0, static_cast<uint64_t>(Key.size()) * sizeof(uint64_t)));
+		poft = AbsorbBytes(enc, blen, pad, poft, Rate, state, Rounds);
+		poft = AbsorbBytes(Key, Key.size(), pad, poft, Rate, state, Rounds);
 
 		MemoryTools::Clear(pad, poft, pad.size() - poft);
 		poft = (poft % sizeof(uint64_t) == 0) ? poft : poft + (sizeof(uint64_t) - (poft % sizeof(uint64_t)));
@@ -614,13 +609,20 @@ public:
 		if (Length != 0)
 		{
 			MemoryTools::Copy(Message, Offset, pad, 0, Length);
-			MemoryTools::Clear(pad, Length, pad.size() - Length);
 		}
 
-		// add the remaining message bytes to the state and finalize
-		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
+		// add the remaining message bytes and the output length to the state and finalize
+		blen = static_cast<size_t>(RightEncode(enc, 0, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t)));
+		Length = AbsorbBytes(enc, blen, pad, Length, Rate, state, Rounds);
+
+		if (Length == Rate)
+		{
+			FastAbsorb(pad, 0, Rate, state);
+			Permute(state, Rounds);
+			Length = 0;
+		}
 
-		Length += blen;
+		MemoryTools::Clear(pad, Length, pad.size() - Length);
 		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
-- 
2.43.0


From 7706e4c62c028260d453a361e68b3a771af2541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:24 +0000
Subject: [PATCH 11/33] fix: HKDF: info of an earlier key reached the next one,
 the 255-block limit rounded down, SecureVector output at an offset overflowed

---
 CEX/HKDF.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..8a924ed 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,8 +33,8 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.clear();
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -161,7 +161,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -175,7 +175,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -189,7 +189,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -207,7 +207,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From fb3f6015565466b9a036a1a4fd95c70d77f15825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:24 +0000
Subject: [PATCH 12/33] fix: KDF2: salt of an earlier key reached the next one,
 IV copied past its end when info is given, info dropped, SecureVector output
 at an offset overflowed

---
 CEX/KDF2.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..5796db6 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,6 +42,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
@@ -222,7 +223,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
@@ -246,14 +247,14 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		}
 
-			// add info as extension of salt
-			if (Parameters.KeySizes().InfoSize() > 0)
-			{
-				const size_t SLTLEN = m_kdf2State->Salt.size();
-				m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
-			}
+		// add info as extension of salt
+		if (Parameters.KeySizes().InfoSize() > 0)
+		{
+			const size_t SLTLEN = m_kdf2State->Salt.size();
+			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
@@ -301,7 +302,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From e77cf80ba150f43b307d44a413da911547123d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:24 +0000
Subject: [PATCH 13/33] fix: PBKDF2: salt of an earlier key reached the next
 one, IV copied past its end when info is given, SecureVector output at an
 offset overflowed

---
 CEX/PBKDF2.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..569224b 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,6 +46,7 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.clear();
 		MemoryTools::Clear(State, 0, State.size());
 		IsInitialized = false;
 	}
@@ -234,7 +235,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
@@ -294,7 +295,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From 3e4f086a814dc08fef90777098dbcaaede922702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:24 +0000
Subject: [PATCH 14/33] fix: HMAC: accept the 4-byte keys and salts that PBKDF2
 and HKDF accept and pass on

---
 CEX/HMAC.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/HMAC.h b/CEX/HMAC.h
index d312ad2..0e3e3b4 100644
--- a/CEX/HMAC.h
+++ b/CEX/HMAC.h
@@ -95,7 +95,7 @@ private:
 
 	static const std::string CLASS_NAME;
 	static const uint8_t IPAD = 0x36;
-	static const size_t MINKEY_LENGTH = 8;
+	static const size_t MINKEY_LENGTH = 4;
 	static const size_t MINSALT_LENGTH = 0;
 	static const uint8_t OPAD = 0x5C;
 
-- 
2.43.0


From 1403c1642b60df30f437a9ba4c74d51d9c5599aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 15/33] fix: GCM and HBA reject short inputs and outputs and
 bad associated-data ranges; GCM forgets the previous message on a nonce-only
 initialization

---
 CEX/GCM.cpp | 27 ++++++++++++++++++++++++---
 CEX/HBA.cpp |  9 +++++++--
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..057f0b4 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,8 +185,11 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
+	m_gcmState->AAD.clear();
+	// the hash key is kept; with a new nonce only, it is the one in use
+	m_macAuthenticator->Clear();
 	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
+	MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 	m_gcmState->Counter = 0;
 
 	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
@@ -298,6 +301,10 @@ void GCM::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
@@ -314,6 +321,10 @@ void GCM::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
@@ -325,10 +336,14 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
 	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the the block-size!");
 
-	m_gcmState->Counter += Length;
-
 	if (IsEncryption() == true)
 	{
+		if (OutOffset > Output.size() || Output.size() - OutOffset < Length || Output.size() - OutOffset - Length < TagSize())
+		{
+			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+		}
+
+		m_gcmState->Counter += Length;
 		// encrypt plain-text
 		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
 		// process the cipher-text
@@ -338,6 +353,12 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	}
 	else
 	{
+		if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < TagSize())
+		{
+			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+		}
+
+		m_gcmState->Counter += Length;
 		// process the cipher-text
 		m_macAuthenticator->Update(Input, InOffset, m_gcmState->Tag, Length);
 
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..1081521 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -392,6 +392,11 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
+	if (IsEncryption() == false && (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < TagSize()))
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+	}
+
 	// add the starting position of the nonce to the mac
 	m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 
-- 
2.43.0


From fe4e9b17e779401228c9ad811b05e7026c5f8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 16/33] fix: ChaChaP20 and CSX512 parallel remainder is written
 at the output offset; short sealed input refused; CSX512 reset clears derived
 keys

---
 CEX/CSX512.cpp    | 9 ++++++++-
 CEX/ChaChaP20.cpp | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..8408035 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -107,6 +107,8 @@ public:
 
 	void Reset()
 	{
+		MemoryTools::Clear(Custom, 0, Custom.size());
+		MemoryTools::Clear(MacKey, 0, MacKey.size());
 		MemoryTools::Clear(Nonce, 0, Nonce.size() * sizeof(uint64_t));
 		MemoryTools::Clear(State, 0, State.size() * sizeof(uint64_t));
 		MemoryTools::Clear(MacTag, 0, MacTag.size());
@@ -467,6 +469,11 @@ void CSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_csx512State->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_csx512State->Nonce[1]), 0, sizeof(uint64_t));
@@ -686,7 +693,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..45e9ec2 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -470,6 +470,11 @@ void ChaChaP20::Transform(const std::vector<uint8_t> &Input, size_t InOffset, st
 	{
 		if (IsAuthenticator())
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_csx256State->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[0]), 0, sizeof(uint32_t));
 			m_macAuthenticator->Update(IntegerTools::Le32ToBytes<std::vector<uint8_t>>(m_csx256State->Nonce[1]), 0, sizeof(uint32_t));
@@ -748,7 +753,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From 5b5ba2c22606c96875794d79d13435a3912fc1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 17/33] fix: TSX ciphers check the info size, the tag size and
 the sealed input size, and report their own names

---
 CEX/TSX1024.cpp | 13 +++++++++----
 CEX/TSX256.cpp  |  5 +++++
 CEX/TSX512.cpp  | 11 ++++++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..3693d0f 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
@@ -198,9 +198,9 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
-		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
+		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
 
 	if (m_parallelProfile.IsParallel())
@@ -354,7 +354,7 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
@@ -382,6 +382,11 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_tsx1024State->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx1024State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..3d34b9c 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -359,6 +359,11 @@ void TSX256::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_tsx256State->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx256State->Nonce[1]), 0, sizeof(uint64_t));
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..671fd1b 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
@@ -198,9 +198,9 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
-		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
+		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
 
 	if (m_parallelProfile.IsParallel())
@@ -366,6 +366,11 @@ void TSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_tsx512State->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[0]), 0, sizeof(uint64_t));
 			m_macAuthenticator->Update(IntegerTools::Le64ToBytes<std::vector<uint8_t>>(m_tsx512State->Nonce[1]), 0, sizeof(uint64_t));
-- 
2.43.0


From ee63ffab64d919f5c388bbc296e6a5bd983806aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:30 +0000
Subject: [PATCH 18/33] fix: RCS and RWS drop the previous customization on
 initialization, refuse short sealed input, and share one counter rule

---
 CEX/RCS.cpp | 12 +++++++++---
 CEX/RWS.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..16184de 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -443,9 +443,10 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// store the customization string -v1.0d
+	m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
@@ -605,6 +606,11 @@ void RCS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_rcsState->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rcsState->Nonce, 0, BLOCK_SIZE);
 			// update the mac with the ciphertext
@@ -831,9 +837,9 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 	ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, &Output, OutOffset, &tmpc, CNKLEN, CTRLEN](size_t i)
 	{
 		// thread level counter
-		std::vector<uint8_t> thdc(BLOCK_SIZE);
+		std::vector<uint8_t> thdc(m_rcsState->Nonce);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..22fb816 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -408,9 +408,10 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_rwsState->Counter = 0;
 
 	// store the customization string
+	m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
@@ -540,6 +541,11 @@ void RWS::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	{
 		if (IsAuthenticator() == true)
 		{
+			if (InOffset > Input.size() || Input.size() - InOffset < Length || Input.size() - InOffset - Length < m_rwsState->MacTag.size())
+			{
+				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The input array is too small to contain the MAC code!"), ErrorCodes::InvalidSize);
+			}
+
 			// add the starting position of the nonce
 			m_macAuthenticator->Update(m_rwsState->Nonce, 0, BLOCK_SIZE);
 			// update the mac with the ciphertext
@@ -763,9 +769,9 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 	ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Input, InOffset, &Output, OutOffset, &tmpc, CNKLEN, CTRLEN](size_t i)
 	{
 		// thread level counter
-		std::vector<uint8_t> thdc(BLOCK_SIZE);
+		std::vector<uint8_t> thdc(m_rwsState->Nonce);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From 81be7ee0c171db7a21008d2353363de1926840be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 19/33] fix: the generators refuse an output offset beyond the
 array

---
 CEX/HCG.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..75ce22d 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
@@ -198,7 +198,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 
 void HCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 1b98e54359e9a24ea950e5cf057efb5d930130c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 20/33] fix: CSG keys SHAKE-512 instances at its own rate and
 encodes customizations across the rate

---
 CEX/CSG.cpp | 70 +++++++++++++++--------------------------------------
 1 file changed, 20 insertions(+), 50 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..e3b4075 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,7 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				Keccak::KECCAK512_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
@@ -255,7 +255,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output)
 
 void CSG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -271,7 +271,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -422,49 +422,19 @@ void CSG::Absorb(const SecureVector<uint8_t> &Input, size_t InOffset, size_t Len
 void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVector<uint8_t> &Information, std::unique_ptr<CsgState> &State)
 {
 	std::array<uint8_t, BUFFER_SIZE> pad = { 0 };
-	size_t i;
+	std::array<uint8_t, sizeof(uint64_t) + 1> enc = { 0 };
+	size_t elen;
 	size_t offset;
 
-	// encode the buffer
-	MemoryTools::Clear(pad, 0, pad.size());
-	offset = Keccak::LeftEncode(pad, 0, static_cast<uint64_t>(State->Rate));
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Information.size()) * 8);
-
-	if (Information.size() != 0)
-	{
-		for (i = 0; i < Information.size(); ++i)
-		{
-			// absorb and permute full blocks
-			if (offset == State->Rate)
-			{
-				Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
-				Permute(State);
-				offset = 0;
-			}
-
-			pad[offset] = Information[i];
-			++offset;
-		}
-	}
-
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
-
-	if (Customization.size() != 0)
-	{
-		for (i = 0; i < Customization.size(); ++i)
-		{
-			// absorb and permute the block
-			if (offset == State->Rate)
-			{
-				Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
-				Permute(State);
-				offset = 0;
-			}
-
-			pad[offset] = Customization[i];
-			++offset;
-		}
-	}
+	// encode the rate, information, and customization to the buffer; absorb and permute full blocks
+	elen = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(State->Rate)));
+	offset = Keccak::AbsorbBytes(enc, elen, pad, 0, State->Rate, State->State[State->Index]);
+	elen = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Information.size()) * 8));
+	offset = Keccak::AbsorbBytes(enc, elen, pad, offset, State->Rate, State->State[State->Index]);
+	offset = Keccak::AbsorbBytes(Information, Information.size(), pad, offset, State->Rate, State->State[State->Index]);
+	elen = static_cast<size_t>(Keccak::LeftEncode(enc, 0, static_cast<uint64_t>(Customization.size()) * 8));
+	offset = Keccak::AbsorbBytes(enc, elen, pad, offset, State->Rate, State->State[State->Index]);
+	offset = Keccak::AbsorbBytes(Customization, Customization.size(), pad, offset, State->Rate, State->State[State->Index]);
 
 	// finalize and permute the state
 	MemoryTools::Clear(pad, offset, BUFFER_SIZE - offset);
-- 
2.43.0


From 5f4a7bc6f9f4c55df2d389d03bdd7103b260ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 21/33] fix: BCG leaves the caller's provider alone, counts
 parallel nonces in 16 bytes and keeps its distribution code over updates

---
 CEX/BCG.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..8bfcd24 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -81,7 +81,6 @@ public:
 		Counter = 0;
 		KeySize = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -123,7 +122,7 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
 }
@@ -198,7 +197,7 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +243,7 @@ void BCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (Output.size() < OutOffset || (Output.size() - OutOffset) < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -372,7 +371,9 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 	}
 
 	// reinitialize the generator with the nonce and distribution codes preserved
-	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	SecureVector<uint8_t> tmpi(m_bcgState->Custom.size() > BCG_INFO.size() ? m_bcgState->Custom.size() - BCG_INFO.size() : 0);
+	MemoryTools::Copy(m_bcgState->Custom, BCG_INFO.size(), tmpi, 0, tmpi.size());
+	SymmetricKey kp(tmpk, m_bcgState->Nonce, tmpi);
 	Initialize(kp);
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
@@ -555,9 +556,9 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 		ParallelTools::ParallelFor(0, m_parallelProfile.ParallelMaxDegree(), [this, &Output, OutOffset, &tmpc, CNKLEN, CTRLEN](size_t i)
 		{
 			// thread level counter
-			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
+			SecureVector<uint8_t> thdCtr(m_bcgState->Nonce);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From bdfedcd6b7af1544205e4c42609f1bac49b6fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 22/33] fix: padding names its first byte and its range, and
 refuses what it cannot code

---
 CEX/ESP.cpp     | 31 ++++++++++---------------------
 CEX/PKCS7.cpp   | 36 ++++++++++++------------------------
 CEX/X923.cpp    | 35 ++++++++++++-----------------------
 CEX/ZeroOne.cpp | 36 +++++++++++-------------------------
 4 files changed, 45 insertions(+), 93 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..0a6671d 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -31,6 +31,10 @@ void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length || Length - Offset > 0xFF)
+	{
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The padding length is invalid!"), ErrorCodes::InvalidSize);
+	}
 
 	uint8_t pad;
 	size_t i;
@@ -46,26 +50,7 @@ void ESP::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input)
 {
-	const size_t BLKLEN = Input.size();
-	const size_t FNLPAD = Input[BLKLEN - 1];
-	size_t ctr;
-	size_t inp;
-	size_t pos;
-
-	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
-	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 1;
-
-	while (ctr != 0)
-	{
-		inp |= ~IntegerTools::IsEqual<uint8_t>(static_cast<size_t>(Input[ctr - 1]), static_cast<size_t>(Input[ctr]) - 1) & IntegerTools::ExpandMask<uint8_t>(ctr > pos);
-		--ctr;
-	}
-
-	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
-
-	return pos;
+	return GetBlockLength(Input, 0, Input.size());
 }
 
 size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -74,6 +59,10 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The offset is past the end of the block!"), ErrorCodes::InvalidSize);
+	}
 
 	const size_t BLKLEN = Length;
 	const size_t FNLPAD = Input[BLKLEN - 1];
@@ -82,7 +71,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..b653d4d 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -31,6 +31,10 @@ void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length || Length - Offset > 0xFF)
+	{
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The padding length is invalid!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t i;
 	uint8_t code;
@@ -45,27 +49,7 @@ void PKCS7::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 {
-	const size_t BLKLEN = Input.size();
-	const uint8_t FNLPAD = Input[BLKLEN - 1];
-	size_t ctr;
-	size_t inp;
-	size_t pos;
-
-	ctr = BLKLEN - 2;
-	inp = 0;
-	pos = BLKLEN - FNLPAD;
-
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
-
-	while (ctr != 0)
-	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
-		--ctr;
-	}
-
-	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
-
-	return pos;
+	return GetBlockLength(Input, 0, Input.size());
 }
 
 size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -74,6 +58,10 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The offset is past the end of the block!"), ErrorCodes::InvalidSize);
+	}
 
 	const size_t BLKLEN = Length;
 	const uint8_t FNLPAD = Input[BLKLEN - 1];
@@ -81,16 +69,16 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..bf774b9 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -35,6 +35,10 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length || Length - Offset > 0xFF)
+	{
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The padding length is invalid!"), ErrorCodes::InvalidSize);
+	}
 
 	for (i = Offset; i < Length - 1; ++i)
 	{
@@ -46,26 +50,7 @@ void X923::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 {
-	const size_t BLKLEN = Input.size();
-	const size_t FNLPAD = Input[BLKLEN - 1];
-	size_t ctr;
-	size_t inp;
-	size_t pos;
-
-	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
-	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
-
-	while (ctr != 0)
-	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
-		--ctr;
-	}
-
-	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
-
-	return pos;
+	return GetBlockLength(Input, 0, Input.size());
 }
 
 size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -74,6 +59,10 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The offset is past the end of the block!"), ErrorCodes::InvalidSize);
+	}
 
 	const size_t BLKLEN = Length;
 	const size_t FNLPAD = Input[BLKLEN - 1];
@@ -82,14 +71,14 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..40ad75d 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
@@ -31,12 +31,16 @@ void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Leng
 	{
 		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length)
+	{
+		throw CryptoPaddingException(Name(), std::string("AddPadding"), std::string("The padding length is invalid!"), ErrorCodes::InvalidSize);
+	}
 
 	size_t i;
 
 	Input[Offset] = 0x80;
 
-	for (i = Offset + 1; i % Length; ++i)
+	for (i = Offset + 1; i < Length; ++i)
 	{
 		Input[i] = 0x00;
 	}
@@ -44,29 +48,7 @@ void ZeroOne::AddPadding(std::vector<uint8_t> &Input, size_t Offset, size_t Leng
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input)
 {
-	const size_t BLKSZE = Input.size();
-	size_t ctr = BLKSZE;
-	size_t pos = BLKSZE;
-	uint8_t inp;
-	uint8_t seen;
-
-	ctr = BLKSZE;
-	inp = 0;
-	pos = BLKSZE - 1;
-	seen = 0;
-
-	while (ctr != 0)
-	{
-		seen |= IntegerTools::IsEqual<uint8_t>(Input[ctr - 1], 0x80);
-		pos -= IntegerTools::Select<uint8_t>(~seen, 1, 0);
-		inp |= ~IntegerTools::IsZero<uint8_t>(Input[ctr - 1]) & ~seen;
-		--ctr;
-	}
-	inp |= ~seen;
-
-	IntegerTools::ConditionalCopy(static_cast<size_t>(inp), &pos, &BLKSZE, &pos, 1);
-
-	return pos;
+	return GetBlockLength(Input, 0, Input.size());
 }
 
 size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -75,6 +57,10 @@ size_t ZeroOne::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset,
 	{
 		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The length is longer than the array!"), ErrorCodes::InvalidSize);
 	}
+	if (Offset >= Length)
+	{
+		throw CryptoPaddingException(Name(), std::string("GetBlockLength"), std::string("The offset is past the end of the block!"), ErrorCodes::InvalidSize);
+	}
 
 	const size_t BLKSZE = Length;
 	size_t ctr = BLKSZE;
-- 
2.43.0


From d824b58f21487778f6426b3d782396f78be228d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 23/33] fix: CipherStream pads every message in a block mode,
 processes one-block messages, and leaves the caller's instances alone

---
 CEX/CipherStream.cpp | 67 ++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..98689f8 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -17,6 +17,7 @@ class CipherStream::CipherState
 public:
 
 	bool Destroy;
+	bool DestroyPadding;
 	bool Buffered;
 	bool CounterMode;
 	bool Encryption;
@@ -25,6 +26,7 @@ public:
 	CipherState(bool IsCounter, bool Destroyed)
 		:
 		Destroy(Destroyed),
+		DestroyPadding(Destroyed),
 		Buffered(false),
 		CounterMode(IsCounter),
 		Encryption(false),
@@ -36,6 +38,7 @@ public:
 	~CipherState()
 	{
 		Destroy = false;
+		DestroyPadding = false;
 		Buffered = false;
 		CounterMode = false;
 		Encryption = false;
@@ -52,7 +55,7 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(CipherModeType == CipherModes::ECB || CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -62,23 +65,23 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherState(new CipherState(((Cipher != nullptr && (Cipher->Enumeral() == CipherModes::CTR || Cipher->Enumeral() == CipherModes::ICM)) ? true : false), false)),
 	m_cipherEngine(Cipher != nullptr ? Cipher :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(Padding),
+	m_cipherPadding(Padding != nullptr || m_cipherState->CounterMode ? Padding : GetPaddingMode(PaddingModes::X923)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
+	// the default padding belongs to this class
+	m_cipherState->DestroyPadding = (Padding == nullptr);
 }
 
 CipherStream::~CipherStream()
 {
-	if (m_cipherState->Destroy)
+	// instances passed to the constructor belong to the caller
+	if (m_cipherState->Destroy == false)
 	{
-		if (m_cipherEngine != nullptr)
-		{
-			m_cipherEngine.reset(nullptr);
-		}
-		if (m_cipherPadding != nullptr)
-		{
-			m_cipherPadding.reset(nullptr);
-		}
+		m_cipherEngine.release();
+	}
+	if (m_cipherState->DestroyPadding == false)
+	{
+		m_cipherPadding.release();
 	}
 
 	IntegerTools::Clear(m_legalKeySizes);
@@ -175,6 +178,11 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t INPLEN = Input.size() - InOffset;
 	size_t plen;
 
+	if (m_cipherState->CounterMode == false && m_cipherState->Encryption == false && (INPLEN == 0 || INPLEN % m_cipherEngine->BlockSize() != 0))
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher-text length must be a multiple of the block size!"), ErrorCodes::InvalidSize);
+	}
+
 	plen = 0;
 
 	if (IsParallel())
@@ -198,7 +206,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
@@ -210,8 +218,8 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 		}
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// the partial block, or the block of padding that follows an aligned message
+	if (ALNLEN != INPLEN || (m_cipherState->CounterMode == false && m_cipherState->Encryption))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -228,15 +236,12 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
 			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 			plen += BLKLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + BLKLEN)
 			{
-				Output.resize(plen);
+				Output.resize(OutOffset + BLKLEN);
 			}
 
 			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
@@ -249,9 +254,9 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 			plen += FNLLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + FNLLEN)
 			{
-				Output.resize(plen);
+				Output.resize(OutOffset + FNLLEN);
 			}
 		}
 	}
@@ -267,6 +272,11 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	std::vector<uint8_t> inp(0);
 	std::vector<uint8_t> otp(0);
 
+	if (m_cipherState->CounterMode == false && m_cipherState->Encryption == false && (INPLEN == 0 || INPLEN % m_cipherEngine->BlockSize() != 0))
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher-text length must be a multiple of the block size!"), ErrorCodes::InvalidSize);
+	}
+
 	plen = 0;
 	pread = 0;
 
@@ -295,7 +305,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	if (INPLEN >= BLKLEN)
 	{
 		while (plen != ALNLEN)
 		{
@@ -307,8 +317,8 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		}
 	}
 
-	// partial
-	if (ALNLEN != INPLEN)
+	// the partial block, or the block of padding that follows an aligned message
+	if (ALNLEN != INPLEN || (m_cipherState->CounterMode == false && m_cipherState->Encryption))
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -322,11 +332,8 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		else if (m_cipherState->Encryption)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
-			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			pread = (FNLLEN != 0) ? InStream->Read(inp, 0, FNLLEN) : 0;
+			m_cipherPadding->AddPadding(inp, pread, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
-- 
2.43.0


From 68e53f2a7571ac993386d9094d4e7732f07ff22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 24/33] fix: memory and secure streams read what was asked for,
 and set their length

---
 CEX/MemoryStream.cpp | 17 ++++++++++++-----
 CEX/SecureStream.cpp | 35 +++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..9896976 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -127,9 +127,11 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -176,7 +178,12 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
+
+	if (m_streamPosition > Length)
+	{
+		m_streamPosition = Length;
+	}
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -200,9 +207,9 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamData.size() <= m_streamPosition)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..192fefc 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -27,7 +27,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +43,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,7 +59,7 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -147,9 +147,11 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -201,7 +203,14 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	Transform();
+	m_streamData.resize(Length);
+	Transform();
+
+	if (m_streamPosition > Length)
+	{
+		m_streamPosition = Length;
+	}
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
@@ -230,16 +239,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	len = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(len);
-	}
+	Transform();
+
 	if (m_streamData.size() < len)
 	{
 		m_streamData.resize(len);
 	}
 
-	Transform();
 	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
 	Transform();
 	m_streamPosition += Length;
@@ -247,12 +253,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	Transform();
+
+	if (m_streamData.size() <= m_streamPosition)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
-	Transform();
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
 	Transform();
 	m_streamPosition += 1;
-- 
2.43.0


From 67a5ecdc2626db33ce11521368b5497818c6101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:55 +0000
Subject: [PATCH 25/33] fix: MacStream leaves the caller's MAC instance alone

---
 CEX/MacStream.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..79207bc 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -54,12 +54,10 @@ MacStream::MacStream(IMac* Mac)
 
 MacStream::~MacStream()
 {
-	if (m_streamState->Destroy)
+	// an instance passed to the constructor belongs to the caller
+	if (m_streamState->Destroy == false)
 	{
-		if (m_macEngine != nullptr)
-		{
-			m_macEngine.reset(nullptr);
-		}
+		m_macEngine.release();
 	}
 }
 
-- 
2.43.0


From b88c316ab3908ff6db6dcf40826ec4f4b800c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 26/33] fix: RHX and SHX leave the caller's derivation function
 alone

---
 CEX/RHX.cpp | 8 +++-----
 CEX/SHX.cpp | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..7209246 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -88,12 +88,10 @@ RHX::RHX(IKdf* Kdf)
 
 RHX::~RHX()
 {
-	if (m_rhxState->Destroyed)
+	// an instance passed to the constructor belongs to the caller
+	if (m_rhxState->Destroyed == false)
 	{
-		if (m_kdfGenerator != nullptr)
-		{
-			m_kdfGenerator.reset(nullptr);
-		}
+		m_kdfGenerator.release();
 	}
 }
 
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index 4cc145f..2e40da8 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -86,12 +86,10 @@ SHX::SHX(IKdf* Kdf)
 
 SHX::~SHX()
 {
-	if (m_shxState->Destroyed)
+	// an instance passed to the constructor belongs to the caller
+	if (m_shxState->Destroyed == false)
 	{
-		if (m_kdfGenerator != nullptr)
-		{
-			m_kdfGenerator.reset(nullptr);
-		}
+		m_kdfGenerator.release();
 	}
 }
 
-- 
2.43.0


From 0c3a00030cdc006d3d573faf4f21158dabafb1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 27/33] fix: ChaChaP20 and CSX512 accept the state an
 unauthenticated instance saved

---
 CEX/CSX512.h    | 2 +-
 CEX/ChaChaP20.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..b33a8fc 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,7 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
+	static const size_t STATE_THRESHOLD = 145;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..9d43d05 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,7 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
+	static const size_t STATE_THRESHOLD = 81;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
-- 
2.43.0


From a81566e1192e0540d2afc53f4390a5f24887aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 28/33] fix: StreamCipherFromName builds CSX512 when asked for
 it

---
 CEX/StreamCipherFromName.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From e45e4501b116e0d2c311e2b7c72399b9f69f7aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 29/33] fix: CipherModeFromName builds ECB over a given cipher
 instance

---
 CEX/CipherModeFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/CipherModeFromName.cpp b/CEX/CipherModeFromName.cpp
index c4be02b..9819326 100644
--- a/CEX/CipherModeFromName.cpp
+++ b/CEX/CipherModeFromName.cpp
@@ -45,6 +45,11 @@ ICipherMode* CipherModeFromName::GetInstance(IBlockCipher* Cipher, CipherModes C
 				mptr = new CFB(Cipher);
 				break;
 			}
+			case CipherModes::ECB:
+			{
+				mptr = new ECB(Cipher);
+				break;
+			}
 			case CipherModes::ICM:
 			{
 				mptr = new ICM(Cipher);
-- 
2.43.0


From 90e373379c2b731a354b6e756f8c6cbc2aaf5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 30/33] fix: KPA512 has a 64-byte tag

---
 CEX/KPA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..21d6f6c 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			KbaModeType == KpaModes::KPA512 ? Keccak::KECCAK512_DIGEST_SIZE : 0)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
-- 
2.43.0


From a4404c0fb2cc56780c209b98eb15b9352a114d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 31/33] fix: the names AES and XMSSSHA2256H10 lead back to
 their members

---
 CEX/AsymmetricParameters.cpp | 2 +-
 CEX/SymmetricCiphers.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..3228c7d 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -273,7 +273,7 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..8de4851 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -101,7 +101,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 8a9fd77231ddd1f13ac67a12bc158eb68ecd5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 32/33] fix: a SymmetricSecureKey made without a salt can be
 cloned

---
 CEX/SymmetricSecureKey.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..3c9ee31 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,7 +395,9 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	return (m_secureState->Salt.size() != 0) ?
+		new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt)) :
+		new SymmetricSecureKey(Key(), IV(), Info());
 }
 
 void SymmetricSecureKey::Reset()
-- 
2.43.0


From ff97d9472978b987be9f4ecb0f929e0704e3a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:36 +0000
Subject: [PATCH 33/33] fix: AsymmetricSecureKey returns the polynomial without
 the authentication tag's padding

---
 CEX/AsymmetricSecureKey.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..c4d5312 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -34,6 +34,7 @@ public:
 
 	SecureVector<uint8_t> Polynomial;
 	SecureVector<uint8_t> Salt;
+	size_t Length = 0;
 	AsymmetricPrimitives Primitive;
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
@@ -132,12 +133,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->Length);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +150,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->Length)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +158,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -207,6 +208,7 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 
 	// transfer from the secure-vector to a working state
 	tmpt = SecureUnlockClear(State->Polynomial);
+	State->Length = tmpt.size();
 
 	// resize the cipher-text to accommodate the authentication tag
 	if (cpr->IsAuthenticator())
-- 
2.43.0

