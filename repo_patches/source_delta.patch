From bdeeb528076d5ab3759c192f4c09c4ce56220a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 01/78] fix: CSX512 and ChaChaP20 honour the output offset for
 the tail of a parallel transform

---
 CEX/CSX512.cpp    | 2 +-
 CEX/ChaChaP20.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..61d2dc0 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -686,7 +686,7 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..faf0ac4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -748,7 +748,7 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		if (RNDLEN < PRCLEN)
 		{
 			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From a7171b6c2c560eb7030951055c5b355ec53585c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 02/78] fix: BeIncrease8 and LeIncrease8 propagate the carry
 through an 0xFF addend byte

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..62077bf 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (static_cast<uint32_t>(odst) + osrc + carry) >> 8;
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From 81accfdb9913a24f46a7a0df92b14e306fd47ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 03/78] fix: RCS and RWS parallel workers advance the same 16
 counter bytes as the sequential path

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..e19a222 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -833,7 +833,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..7ea2707 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -765,7 +765,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From 45e68df4b79848b36b3983ccfb1b60c14b46f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 04/78] fix: GCM re-initialization keeps the hash key and drops
 a stale nonce and associated data

---
 CEX/GCM.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..4c17be1 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,8 +185,11 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_macAuthenticator->Reset();
+	m_gcmState->AAD.resize(0);
+	// the hash key is kept for a nonce-only initialization
+	m_macAuthenticator->Clear();
 	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
+	MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 	m_gcmState->Counter = 0;
 
 	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
-- 
2.43.0


From 5ee0d576f75540f6baf19b70a13b5e35ad23a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 05/78] fix: HBA checks the associated data range against the
 end of the array

---
 CEX/HBA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..6b62a55 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Input.size() - Offset < Length)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 22664f3dbb740925ad060776a37a86a9ef1d2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 06/78] fix: RCS and RWS drop an earlier customization string
 when initialized without one

---
 CEX/RCS.cpp | 3 ++-
 CEX/RWS.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index e19a222..7e21590 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -443,9 +443,10 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// store the customization string -v1.0d
+	m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 7ea2707..216f9e5 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -408,9 +408,10 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_rwsState->Counter = 0;
 
 	// store the customization string
+	m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
-- 
2.43.0


From 23de67645a8cb1d76dd249d05950fcf994e2be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 07/78] fix: TSX512 and TSX1024 zero pad an info string shorter
 than the tweak instead of reading past it

---
 CEX/TSX1024.cpp | 8 +++++---
 CEX/TSX512.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..a079fed 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -227,9 +227,11 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code, zero padded to the tweak size
+		std::vector<uint8_t> tmpi(INFO_SIZE);
+		MemoryTools::Copy(Parameters.Info(), 0, tmpi, 0, Parameters.KeySizes().InfoSize());
+		m_tsx1024State->Tweak[0] = IntegerTools::LeBytesTo64(tmpi, 0);
+		m_tsx1024State->Tweak[1] = IntegerTools::LeBytesTo64(tmpi, 8);
 	}
 	else
 	{
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..7f0c0bf 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -227,9 +227,11 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		// custom code
-		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(Parameters.Info(), 0);
-		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(Parameters.Info(), 8);
+		// custom code, zero padded to the tweak size
+		std::vector<uint8_t> tmpi(INFO_SIZE);
+		MemoryTools::Copy(Parameters.Info(), 0, tmpi, 0, Parameters.KeySizes().InfoSize());
+		m_tsx512State->Tweak[0] = IntegerTools::LeBytesTo64(tmpi, 0);
+		m_tsx512State->Tweak[1] = IntegerTools::LeBytesTo64(tmpi, 8);
 	}
 	else
 	{
-- 
2.43.0


From d4f1f7bf6547912b5ef56f4bc1b4c41ad0d3c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:59 +0000
Subject: [PATCH 08/78] fix: CSX512 does not keep the tail of an earlier,
 longer info string

---
 CEX/CSX512.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 61d2dc0..043f116 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -333,6 +333,7 @@ void CSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	m_csx512State->Custom.resize(INFO_SIZE);
+	MemoryTools::Clear(m_csx512State->Custom, 0, m_csx512State->Custom.size());
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-- 
2.43.0


From 34904e11958544f6134f765920bc19798dcdb8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:13 +0000
Subject: [PATCH 09/78] fix: CSX512 and ChaChaP20 accept the saved state of an
 unauthenticated cipher

---
 CEX/CSX512.h    | 2 +-
 CEX/ChaChaP20.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..76b02e6 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,7 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
+	static const size_t STATE_THRESHOLD = 193;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..913f236 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,7 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
+	static const size_t STATE_THRESHOLD = 97;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
-- 
2.43.0


From fd70aa3aa5687141aaecef2ec722a105ddcc36d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:14 +0000
Subject: [PATCH 10/78] fix: the SHA2 tree digests hash every leaf into the
 root, not the first half of them and stale buffer bytes

---
 CEX/SHA2256.cpp | 2 +-
 CEX/SHA2512.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..e680d22 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..3fb4c82 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From 102231a16fda2095a09e808f589962a21781ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:14 +0000
Subject: [PATCH 11/78] fix: the tree digests use the same number of leaves on
 every machine

---
 CEX/Blake256.cpp  | 11 +++++++++++
 CEX/Blake512.cpp  | 11 +++++++++++
 CEX/SHA2256.cpp   | 11 +++++++++++
 CEX/SHA2512.cpp   | 11 +++++++++++
 CEX/SHA3256.cpp   | 13 ++++++++++++-
 CEX/SHA3512.cpp   | 13 ++++++++++++-
 CEX/Skein1024.cpp | 13 ++++++++++++-
 CEX/Skein256.cpp  | 11 +++++++++++
 CEX/Skein512.cpp  | 13 ++++++++++++-
 9 files changed, 103 insertions(+), 4 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..3f938a8 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -58,6 +58,12 @@ Blake256::Blake256(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake256), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -90,6 +96,11 @@ Blake256::Blake256(BlakeParams &Params)
 		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE256_DIGEST_SIZE), 0, 1, 1, 0, 0, 0, 0, Params.DistributionCode());
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..1c31f3b 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -60,6 +60,12 @@ Blake512::Blake512(bool Parallel)
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Blake512), std::string("Constructor"), std::string("This cpu does not support parallel processing!"), ErrorCodes::InvalidParam);
 	}
 
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -94,6 +100,11 @@ Blake512::Blake512(BlakeParams &Params)
 		m_treeParams = BlakeParams(static_cast<uint8_t>(Blake::BLAKE512_DIGEST_SIZE));
 	}
 
+	if (m_treeParams.FanOut() > 1)
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index e680d22..8225ce1 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -59,6 +59,12 @@ SHA2256::SHA2256(bool Parallel)
 		SHA2Params(SHA2::SHA2256_DIGEST_SIZE, static_cast<uint8_t>(SHA2::SHA2256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SHA2Params(SHA2::SHA2256_DIGEST_SIZE, 0UL, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -72,6 +78,11 @@ SHA2256::SHA2256(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index 3fb4c82..4662742 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -62,6 +62,12 @@ SHA2512::SHA2512(bool Parallel)
 	m_treeParams(Parallel ? SHA2Params(SHA2::SHA2512_DIGEST_SIZE, static_cast<uint8_t>(SHA2::SHA2512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SHA2Params(SHA2::SHA2512_DIGEST_SIZE, 0UL, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -75,6 +81,11 @@ SHA2512::SHA2512(SHA2Params &Params)
 	m_parallelProfile(SHA2::SHA2512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..70355fb 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -45,9 +45,15 @@ SHA3256::SHA3256(bool Parallel)
 	m_msgLength(0),
 	m_parallelProfile(Keccak::KECCAK256_RATE_SIZE, Parallel, false, STATE_PRECACHED, false, DEF_PRLDEGREE),
 	m_treeParams(Parallel ? 
-		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK256_RATE_SIZE), static_cast<uint8_t>(m_parallelProfile.ParallelMaxDegree())) :
+		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		KeccakParams(Keccak::KECCAK256_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -61,6 +67,11 @@ SHA3256::SHA3256(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..76c9529 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -45,9 +45,15 @@ SHA3512::SHA3512(bool Parallel)
 	m_msgLength(0),
 	m_parallelProfile(Keccak::KECCAK512_RATE_SIZE, Parallel, false, STATE_PRECACHED, false, DEF_PRLDEGREE),
 	m_treeParams(Parallel ? 
-		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK512_RATE_SIZE), static_cast<uint8_t>(m_parallelProfile.ParallelMaxDegree())) :
+		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, static_cast<uint8_t>(Keccak::KECCAK512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		KeccakParams(Keccak::KECCAK512_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Reset();
 }
 
@@ -61,6 +67,11 @@ SHA3512::SHA3512(KeccakParams &Params)
 	m_parallelProfile(Keccak::KECCAK512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Reset();
 }
 
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..5b1a091 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -60,6 +60,12 @@ Skein1024::Skein1024(bool Parallel)
 		SkeinParams(Skein::SKEIN1024_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN1024_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SkeinParams(Skein::SKEIN1024_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -68,11 +74,16 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index c46e84d..c1229ed 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -59,6 +59,12 @@ Skein256::Skein256(bool Parallel)
 		SkeinParams(Skein::SKEIN256_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN256_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) :
 		SkeinParams(Skein::SKEIN256_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -72,6 +78,11 @@ Skein256::Skein256(SkeinParams &Params)
 	m_parallelProfile(Skein::SKEIN256_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..1414e34 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -60,6 +60,12 @@ Skein512::Skein512(bool Parallel)
 		SkeinParams(Skein::SKEIN512_DIGEST_SIZE, static_cast<uint8_t>(Skein::SKEIN512_RATE_SIZE), static_cast<uint8_t>(DEF_PRLDEGREE)) : 
 		SkeinParams(Skein::SKEIN512_DIGEST_SIZE, 0x00, 0x00))
 {
+	if (Parallel)
+	{
+		// the number of leaves is part of the function, and not a property of the machine
+		m_parallelProfile.SetMaxDegree(DEF_PRLDEGREE);
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
@@ -68,11 +74,16 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
 {
+	if (m_parallelProfile.IsParallel())
+	{
+		m_parallelProfile.SetMaxDegree(Params.FanOut());
+	}
+
 	Initialize(m_dgtState, m_treeParams);
 }
 
-- 
2.43.0


From 42b172758d6395669cc82df6264334abe0a123f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:14 +0000
Subject: [PATCH 12/78] fix: the SHA3 tree digests follow a change of degree
 with their leaf states and message buffer

---
 CEX/SHA3256.cpp | 4 ++++
 CEX/SHA3512.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 70355fb..a6359df 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -227,6 +227,10 @@ void SHA3256::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? Degree : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK256_RATE_SIZE);
 
 	Reset();
 }
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 76c9529..2413288 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -227,6 +227,10 @@ void SHA3512::ParallelMaxDegree(size_t Degree)
 	}
 
 	m_parallelProfile.SetMaxDegree(Degree);
+	m_dgtState.clear();
+	m_dgtState.resize(m_parallelProfile.IsParallel() ? Degree : 1);
+	m_msgBuffer.clear();
+	m_msgBuffer.resize(m_dgtState.size() * Keccak::KECCAK512_RATE_SIZE);
 
 	Reset();
 }
-- 
2.43.0


From f1cd52a764b6d9f6cac9af4551b608e3c5343e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:14 +0000
Subject: [PATCH 13/78] fix: the BLAKE2 tree digests hash the whole message
 buffer, keep it large enough when the degree changes, and honour the output
 offset

---
 CEX/Blake256.cpp | 4 +++-
 CEX/Blake512.cpp | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 3f938a8..8f00900 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -367,7 +367,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -464,6 +464,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_msgBuffer.size() / 2) + (i * Blake::BLAKE256_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 1c31f3b..aa73ce0 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -281,7 +281,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -368,7 +368,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(2 * Degree * Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -465,6 +465,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_msgBuffer.size() / 2) + (i * Blake::BLAKE512_RATE_SIZE), m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
-- 
2.43.0


From 83330a89036a0f582c6757b99da1f86682a5f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 14/78] fix: the BLAKE2 tree digests count the bytes of large
 leaf runs

---
 CEX/Blake256.cpp | 1 +
 CEX/Blake512.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 8f00900..1653156 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -593,6 +593,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index aa73ce0..2f7313d 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -594,6 +594,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From 7fa80b734af0fa3cf74d4a8cc8f8e147ef43d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:55 +0000
Subject: [PATCH 15/78] fix: the BLAKE2 tree digests count no bytes for the
 empty leaves of a short message

---
 CEX/Blake256.cpp | 2 +-
 CEX/Blake512.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 1653156..6358ea8 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -246,7 +246,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength = (m_msgLength > Blake::BLAKE256_RATE_SIZE) ? m_msgLength - Blake::BLAKE256_RATE_SIZE : 0;
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 2f7313d..4c4fce4 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -248,7 +248,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength = (m_msgLength > Blake::BLAKE512_RATE_SIZE) ? m_msgLength - Blake::BLAKE512_RATE_SIZE : 0;
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
-- 
2.43.0


From 1195934e85b01ee3ff5fa3cf951c4a6ae16a345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 16/78] fix: KMAC and the Keccak customization carry encoded
 lengths over the block boundary

---
 CEX/KMAC.cpp | 13 +++++++++++--
 CEX/Keccak.h | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..462cf6f 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -164,10 +164,19 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 
 	for (i = 0; i < blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+		++m_kmacState->Position;
+
+		// the encoded length can cross the block boundary
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..ae57307 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -391,7 +391,22 @@ public:
 			}
 		}
 
-		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+		// the encoded length can cross a block boundary
+		std::array<uint8_t, sizeof(uint64_t) + 1> clen = { 0 };
+		const size_t ENCLEN = static_cast<size_t>(LeftEncode(clen, 0, static_cast<uint64_t>(Customization.size()) * 8));
+
+		for (i = 0; i < ENCLEN; ++i)
+		{
+			if (offset == Rate)
+			{
+				FastAbsorb(pad, 0, Rate, State);
+				Permute(State, Rounds);
+				offset = 0;
+			}
+
+			pad[offset] = clen[i];
+			++offset;
+		}
 
 		if (Customization.size() != 0)
 		{
@@ -621,6 +636,22 @@ public:
 		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
 
 		Length += blen;
+
+		// the encoded length can cross the block boundary
+		if (Length >= Rate)
+		{
+			FastAbsorb(pad, 0, Rate, state);
+			Permute(state, Rounds);
+			Length -= Rate;
+
+			for (i = 0; i < Length; ++i)
+			{
+				pad[i] = pad[Rate + i];
+			}
+
+			MemoryTools::Clear(pad, Length, pad.size() - Length);
+		}
+
 		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
-- 
2.43.0


From 4ad037a25dd763881ed50ceda6d957c76b423148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:07 +0000
Subject: [PATCH 17/78] fix: KPA honours the output offset and reports the code
 size of KPA-512

---
 CEX/KPA.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..495767a 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			Keccak::KECCAK512_DIGEST_SIZE)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
@@ -202,8 +202,10 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		const size_t MACLEN = Output.size() - OutOffset;
+
+		outlen = MACLEN;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
@@ -234,7 +236,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * MACLEN);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
@@ -268,7 +270,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return MACLEN;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
@@ -319,7 +321,7 @@ KPA::KPA(KpaModes KbaModeType)
 				MemoryTools::Clear(m_kbaState->State[i], 0, m_kbaState->State[i].size());
 			}
 
-			MemoryTools::Clear(m_kbaState->Buffer, 0, sizeof(m_kbaState->Buffer));
+			MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 		}
 
 		// stage 1: add customization to state
-- 
2.43.0


From f1d8c3fa29c09ec97aa056875ad8b5142e81cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 18/78] fix: standard AES refuses the 512-bit keys of which it
 used the first 16 bytes

---
 CEX/RHX.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..1eb4d19 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -40,6 +40,11 @@ public:
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
+		// the standard key schedule takes 128, 192 and 256-bit keys only
+		if (CipherExtension == BlockCipherExtensions::None)
+		{
+			LegalKeySizes.pop_back();
+		}
 	}
 
 	~RhxState()
-- 
2.43.0


From 076c087a392817745e42c6d780c69f19fc51ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 19/78] fix: CSG with a user provider uses the rate of
 SHAKE512, and its customization carries encoded lengths over the block
 boundary

---
 CEX/CSG.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..aabb27f 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,8 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				(ShakeModeType == ShakeModes::SHAKE512) ? Keccak::KECCAK512_RATE_SIZE :
+				Keccak::KECCAK1024_RATE_SIZE),
 			DEF_RESEED, 
 			false))
 {
@@ -447,7 +448,22 @@ void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVect
 		}
 	}
 
-	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
+	// the encoded length can cross a block boundary
+	std::array<uint8_t, sizeof(uint64_t) + 1> clen = { 0 };
+	const size_t ENCLEN = static_cast<size_t>(Keccak::LeftEncode(clen, 0, static_cast<uint64_t>(Customization.size()) * 8));
+
+	for (i = 0; i < ENCLEN; ++i)
+	{
+		if (offset == State->Rate)
+		{
+			Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
+			Permute(State);
+			offset = 0;
+		}
+
+		pad[offset] = clen[i];
+		++offset;
+	}
 
 	if (Customization.size() != 0)
 	{
-- 
2.43.0


From 7e76e54f357f27929df8ff1905ce1be6381b6eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 20/78] fix: BCG places the counters of its parallel workers
 like the sequential path, counts a reseed once, and forgets the count when it
 is initialized again; a user's provider stays the user's

---
 CEX/BCG.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..9e35e45 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -80,8 +80,8 @@ public:
 
 		Counter = 0;
 		KeySize = 0;
+		Reseed = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -123,7 +123,7 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 	m_bcgProvider(Provider != nullptr ? 
 		Provider :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
-	m_bcgState(new BcgState(DEF_RESEED, true, Parallel)),
+	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
 }
@@ -217,20 +217,11 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 		// generator must be re-seeded
 		if (m_bcgState->Counter >= ReseedThreshold() || CyclicReseed() == true)
 		{
-			// increment the reseed count
-			++m_bcgState->Reseed;
-
-			// if re-seeded more than legal maximum, throw an exception
-			if (m_bcgState->Reseed > MaxReseedCount())
-			{
-				throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The maximum reseed requests can not be exceeded, re-initialize the generator!"), ErrorCodes::MaxExceeded);
-			}
-
 			// the next unused block of output is key material
 			SecureVector<uint8_t> tmpk(GEN_STRENGTH / 8);
 			// fill the key with pseudo-random
 			Process(tmpk, 0, tmpk.size());
-			// re-initialize the generator
+			// re-initialize the generator; this counts the reseed and throws if the legal maximum is exceeded
 			Update(tmpk);
 			// reset the reseed counter
 			m_bcgState->Counter = 0;
@@ -373,7 +364,9 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 
 	// reinitialize the generator with the nonce and distribution codes preserved
 	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	const size_t RSDCNT = m_bcgState->Reseed;
 	Initialize(kp);
+	m_bcgState->Reseed = RSDCNT;
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
 }
@@ -557,7 +550,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From 677ed5e1bfd8dad67e7e42a5a5fdb4b65f963d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 21/78] fix: HKDF, KDF2 and PBKDF2 start from a clean state
 when initialized again, honour the output offset of secure vectors, read no
 further than the salt, and HKDF stops before its block counter wraps

---
 CEX/HKDF.cpp   | 14 +++++++-------
 CEX/KDF2.cpp   | 13 +++++++++++--
 CEX/PBKDF2.cpp |  8 +++++---
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..ef2e409 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -33,8 +33,8 @@ public:
 	void Reset()
 	{
 		MemoryTools::Clear(Info, 0, Info.size());
+		Info.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -83,7 +83,7 @@ HKDF::HKDF(IDigest* Digest)
 			std::vector<SymmetricKeySize>(0))),
 	m_hkdfGenerator((Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512)) ? new HMAC(Digest) :
 		throw CryptoKdfException(std::string("HKDF"), std::string("Constructor"), std::string("The digest instance is not supported!"), ErrorCodes::IllegalOperation)),
-	m_hkdfState(new HkdfState(m_hkdfGenerator->TagSize() + sizeof(uint8_t), 0, false))
+	m_hkdfState(new HkdfState(m_hkdfGenerator->TagSize() + sizeof(uint8_t), 0, true))
 {
 }
 
@@ -161,7 +161,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -175,7 +175,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -189,7 +189,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -207,7 +207,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -303,7 +303,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..4acc1f4 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -42,7 +42,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
+		State.resize(0);
 		IsInitialized = false;
 	}
 };
@@ -222,7 +224,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
@@ -238,6 +240,13 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			// pad the key to one block
 			m_kdf2State->State.resize(m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, Parameters.KeySizes().KeySize());
+
+			// the info string is the salt
+			if (Parameters.KeySizes().InfoSize() > 0)
+			{
+				m_kdf2State->Salt.resize(Parameters.KeySizes().InfoSize());
+				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+			}
 		}
 		else
 		{
@@ -301,7 +310,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..09b9e14 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -46,7 +46,9 @@ public:
 		MemoryTools::Clear(Counter, 0, Counter.size() - sizeof(uint8_t));
 		Counter[Counter.size() - sizeof(uint8_t)] = 1;
 		MemoryTools::Clear(Salt, 0, Salt.size());
+		Salt.resize(0);
 		MemoryTools::Clear(State, 0, State.size());
+		State.resize(0);
 		IsInitialized = false;
 	}
 };
@@ -96,7 +98,7 @@ PBKDF2::PBKDF2(IDigest* Digest, uint32_t Iterations)
 			std::vector<SymmetricKeySize>(0))),
 	m_pbkdf2Generator((Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512)) ? new HMAC(Digest) :
 		throw CryptoKdfException(std::string("PBKDF2"), std::string("Constructor"), std::string("The digest instance is not supported!"), ErrorCodes::IllegalOperation)),
-	m_pbkdf2State(new Pbkdf2State(0, 0, Iterations, false))
+	m_pbkdf2State(new Pbkdf2State(0, 0, Iterations, true))
 {
 }
 
@@ -234,7 +236,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
@@ -294,7 +296,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From c54d8ad4a3f2d9a5e4ffc83cedb669b3a8ebbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:16 +0000
Subject: [PATCH 22/78] fix: HMAC leaves a user's digest to the user; HCG, HKDF
 and PBKDF2 destroy the HMAC they created, GMAC its cipher; HCG accepts a
 SHA2-512 digest instance

---
 CEX/GMAC.cpp |  1 -
 CEX/HCG.cpp  | 26 +++++++++-----------------
 CEX/HMAC.cpp |  2 +-
 3 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..33b112f 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -50,7 +50,6 @@ public:
 		MemoryTools::Clear(Hash, 0, Hash.size() * sizeof(uint64_t));
 		MemoryTools::Clear(Nonce, 0, Nonce.size());
 		MemoryTools::Clear(State, 0, State.size());
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..813af02 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
@@ -132,26 +132,18 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 
 HCG::~HCG()
 {
-	if (m_hcgState->IsDestroyed)
+	if (m_hcgGenerator != nullptr)
 	{
-		if (m_hcgGenerator != nullptr)
-		{
-			m_hcgGenerator.reset(nullptr);
-		}
-
-		if (m_hcgProvider != nullptr)
-		{
-			m_hcgProvider.reset(nullptr);
-		}
+		m_hcgGenerator.reset(nullptr);
 	}
-	else
+
+	if (m_hcgProvider != nullptr)
 	{
-		if (m_hcgGenerator != nullptr)
+		if (m_hcgState->IsDestroyed)
 		{
-			m_hcgGenerator.release();
+			m_hcgProvider.reset(nullptr);
 		}
-
-		if (m_hcgProvider != nullptr)
+		else
 		{
 			m_hcgProvider.release();
 		}
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..d4a7010 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -117,7 +117,7 @@ HMAC::HMAC(IDigest* Digest)
 		(Digest != nullptr ? Digest->DigestSize() : 0)),
 	m_hmacGenerator(Digest != nullptr ? Digest :
 		throw CryptoMacException(std::string("HMAC"), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
-	m_hmacState(new HmacState(m_hmacGenerator->BlockSize(), m_hmacGenerator->DigestSize(), true))
+	m_hmacState(new HmacState(m_hmacGenerator->BlockSize(), m_hmacGenerator->DigestSize(), false))
 {
 }
 
-- 
2.43.0


From 60d453971c128180c91a312382fda0212dfd62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 23/78] fix: ParallelFor reports an exception thrown by a
 worker

---
 CEX/ParallelTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CEX/ParallelTools.cpp b/CEX/ParallelTools.cpp
index b11d185..21ad60d 100644
--- a/CEX/ParallelTools.cpp
+++ b/CEX/ParallelTools.cpp
@@ -39,7 +39,8 @@ void ParallelTools::ParallelFor(size_t From, size_t To, const std::function<void
 
 	for (size_t i = 0; i < futures.size(); ++i)
 	{
-		futures[i].wait();
+		// rethrows an exception thrown by the worker
+		futures[i].get();
 	}
 
 	futures.clear();
-- 
2.43.0


From 7df3da2e9c86552f144241b9480855f061e44da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:19 +0000
Subject: [PATCH 24/78] fix: clear the state an interrupted initialization left
 behind (HMAC, KMAC, SHAKE, SCBKDF)

---
 CEX/HMAC.cpp   |  6 ++----
 CEX/KMAC.cpp   |  6 ++----
 CEX/SCBKDF.cpp |  6 ++----
 CEX/SHAKE.cpp  | 18 ++++++------------
 4 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index d4a7010..d1231ea 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -213,10 +213,8 @@ void HMAC::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	klen = Parameters.KeySizes().KeySize();
 
diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index 462cf6f..180254b 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -210,10 +210,8 @@ void KMAC::Initialize(ISymmetricKey &Parameters)
 		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid salt size, must be at least MinimumSaltSize in length!"), ErrorCodes::InvalidSalt);
 	}
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	if (Parameters.KeySizes().InfoSize() > 0)
 	{
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..00fc59f 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -170,10 +170,8 @@ void SCBKDF::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	// load the customizations
 	if (Parameters.KeySizes().IVSize() != 0 || Parameters.KeySizes().InfoSize() != 0)
diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 0cc36ea..f5a2ac2 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -186,10 +186,8 @@ void SHAKE::Initialize(const SecureVector<uint8_t> &Key)
 	}
 #endif
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	Absorb(Key, 0, Key.size(), m_shakeState);
 	m_shakeState->IsInitialized = true;
@@ -240,10 +238,8 @@ void SHAKE::Initialize(const SecureVector<uint8_t> &Key, const SecureVector<uint
 		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Customization value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
 	}
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	if (Customization.size() != 0)
 	{
@@ -287,10 +283,8 @@ void SHAKE::Initialize(const SecureVector<uint8_t> &Key, const SecureVector<uint
 		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Customization value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
 	}
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	if (Customization.size() != 0 || Information.size() != 0)
 	{
-- 
2.43.0


From 61402876a44dc138ff9a754ccc7d7023a68f34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 25/78] fix: generate Length bytes, not the whole vector, at an
 offset (HCR, CSR)

---
 CEX/CSR.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..66854fa 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..c80a3f7 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 0e685812f87d4d89f499995c9756558f58e1e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 26/78] fix: generate Length bytes, not the whole vector, at an
 offset (ACP, ECP)

---
 CEX/ACP.cpp | 2 +-
 CEX/ECP.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..92b3f7d 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -83,7 +83,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..9defa3c 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -81,7 +81,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From fdf2e37f08d46db7e92fd1f2f131d1b3c7aefb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 27/78] fix: bounded integers of SecureRandom over the full
 range

---
 CEX/SecureRandom.cpp | 78 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 72 insertions(+), 6 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..1b71d8c 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -264,7 +264,22 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
+	const int16_t SMPTHR = static_cast<int16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+
+	if (SMPTHR <= 0)
+	{
+		// the range is wider than the positive half of the type
+		int16_t smp;
+
+		do
+		{
+			smp = NextInt16();
+		}
+		while (smp < Minimum || smp > Maximum);
+
+		return smp;
+	}
+
 	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
 	int16_t x;
 	int16_t ret;
@@ -319,7 +334,14 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPTHR = (Maximum - Minimum + 1);
+	const uint16_t SMPTHR = static_cast<uint16_t>(Maximum - Minimum + 1);
+
+	if (SMPTHR == 0)
+	{
+		// the full range of the type
+		return NextUInt16();
+	}
+
 	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
 	uint16_t x;
 	uint16_t ret;
@@ -374,7 +396,22 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
+	const int32_t SMPTHR = static_cast<int32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+
+	if (SMPTHR <= 0)
+	{
+		// the range is wider than the positive half of the type
+		int32_t smp;
+
+		do
+		{
+			smp = NextInt32();
+		}
+		while (smp < Minimum || smp > Maximum);
+
+		return smp;
+	}
+
 	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
 	int32_t x;
 	int32_t ret;
@@ -429,7 +466,14 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPTHR = (Maximum - Minimum + 1);
+	const uint32_t SMPTHR = static_cast<uint32_t>(Maximum - Minimum + 1);
+
+	if (SMPTHR == 0)
+	{
+		// the full range of the type
+		return NextUInt32();
+	}
+
 	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
 	uint32_t x;
 	uint32_t ret;
@@ -484,7 +528,22 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
+	const int64_t SMPTHR = static_cast<int64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+
+	if (SMPTHR <= 0)
+	{
+		// the range is wider than the positive half of the type
+		int64_t smp;
+
+		do
+		{
+			smp = NextInt64();
+		}
+		while (smp < Minimum || smp > Maximum);
+
+		return smp;
+	}
+
 	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
 	int64_t x;
 	int64_t ret;
@@ -539,7 +598,14 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPTHR = (Maximum - Minimum + 1);
+	const uint64_t SMPTHR = static_cast<uint64_t>(Maximum - Minimum + 1);
+
+	if (SMPTHR == 0)
+	{
+		// the full range of the type
+		return NextUInt64();
+	}
+
 	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
 	uint64_t x;
 	uint64_t ret;
-- 
2.43.0


From 353be5b32f11ed4336dc0d9741cdf711e16d7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:31 +0000
Subject: [PATCH 28/78] fix: stop CJP when the timer stands still

---
 CEX/CJP.cpp | 10 ++++++++++
 CEX/CJP.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..ab36d2b 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -249,19 +249,29 @@ CEX_OPTIMIZE_RESUME
 void CJP::Generate(std::unique_ptr<JitterState> &State)
 {
 	size_t k;
+	size_t stuck;
 
 	// priming of the PreviousTime value
 	MeasureJitter(State);
 	k = 0;
+	stuck = 0;
 
 	while (true) 
 	{
 		// if a stuck measurement is received, repeat measurement
 		if (MeasureJitter(State) != 0)
 		{
+			++stuck;
+
+			if (stuck > STUCK_MAX)
+			{
+				throw CryptoRandomException(std::string("CJP"), std::string("Generate"), std::string("The timer has stopped!"), ErrorCodes::NotSupported);
+			}
+
 			continue;
 		}
 
+		stuck = 0;
 		++k;
 		// we multiply the loop value with ->osr to obtain the oversampling rate requested by the caller
 		if (k >= (DATA_SIZE_BITS * State->OverSampleRate))
diff --git a/CEX/CJP.h b/CEX/CJP.h
index e45b512..1cad380 100644
--- a/CEX/CJP.h
+++ b/CEX/CJP.h
@@ -71,6 +71,7 @@ private:
 	static const size_t MEMORY_SIZE = (MEMORY_BLOCKS * MEMORY_BLOCKSIZE);
 	static const size_t OVRSMP_RATE_MAX = 128;
 	static const size_t OVRSMP_RATE_MIN = 1;
+	static const size_t STUCK_MAX = 256;
 	static const bool OS_HAS_TSC;
 
 	class JitterState;
-- 
2.43.0


From 03d5ed85c4f0662e85bd4b9b60e69eec19505d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 29/78] fix: MemoryStream reads no more than asked into an
 offset of the output, sets its length, and writes a byte beyond its end

---
 CEX/MemoryStream.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..0b3b82e 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -127,9 +127,11 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -176,7 +178,7 @@ void MemoryStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void MemoryStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	m_streamData.resize(Length);
 }
 
 void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
@@ -185,10 +187,6 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	size_t ttlLen = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(ttlLen);
-	}
 	if (m_streamData.size() < ttlLen)
 	{
 		m_streamData.resize(ttlLen);
@@ -200,9 +198,9 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamData.size() < m_streamPosition + 1)
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
-- 
2.43.0


From 6bcc0902743d0db292129944007005334246b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 30/78] fix: SecureStream reads, resizes and fills gaps
 correctly, survives failing allocations, and reports a changed system key; no
 garbage names from SystemTools

---
 CEX/SecureStream.cpp | 132 +++++++++++++++++++++++++++++--------------
 CEX/SecureStream.h   |   4 +-
 CEX/SystemTools.cpp  |  34 ++++++++---
 3 files changed, 118 insertions(+), 52 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..0f19792 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -1,13 +1,17 @@
 #include "SecureStream.h"
 #include "ArrayTools.h"
 #include "CTR.h"
+#include "IntegerTools.h"
 #include "SHA2512.h"
 #include "SymmetricKey.h"
 #include "SystemTools.h"
 
 NAMESPACE_IO
 
+using Enumeration::ErrorCodes;
+using Exception::CryptoProcessingException;
 using Tools::ArrayTools;
+using Tools::IntegerTools;
 using Tools::MemoryTools;
 using Tools::SystemTools;
 
@@ -18,6 +22,7 @@ const std::string SecureStream::CLASS_NAME("SecureStream");
 SecureStream::SecureStream()
 	:
 	m_isDestroyed(false),
+	m_keyCheck(0),
 	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
@@ -27,7 +32,8 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keyCheck(0),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +49,8 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keyCheck(0),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -53,13 +60,14 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 		MemoryTools::CopyFromValue(KeySalt, m_keySalt, 0, sizeof(uint64_t));
 	}
 
-	Transform();
+	m_streamData = Transform(m_streamData.size());
 }
 
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keyCheck(0),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -74,7 +82,7 @@ SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Len
 		MemoryTools::CopyFromValue(KeySalt, m_keySalt, 0, sizeof(uint64_t));
 	}
 
-	Transform();
+	m_streamData = Transform(m_streamData.size());
 }
 
 SecureStream::~SecureStream()
@@ -129,9 +137,10 @@ void SecureStream::Close()
 
 void SecureStream::CopyTo(IByteStream* Destination)
 {
-	Transform();
-	Destination->Write(m_streamData, 0, m_streamData.size());
-	Transform();
+	std::vector<uint8_t> state = Transform(m_streamData.size());
+
+	Destination->Write(state, 0, state.size());
+	IntegerTools::Clear(state);
 }
 
 void SecureStream::Destroy()
@@ -140,23 +149,26 @@ void SecureStream::Destroy()
 	{
 		m_isDestroyed = true;
 		m_streamPosition = 0;
-		MemoryTools::Clear(m_streamData, 0, m_streamData.size());
+		IntegerTools::Clear(m_streamData);
 		m_streamData.clear();
 	}
 }
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const size_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
 	{
-		Transform();
-		MemoryTools::Copy(m_streamData, m_streamPosition, Output, Offset, Length);
-		Transform();
+		std::vector<uint8_t> state = Transform(m_streamData.size());
+
+		MemoryTools::Copy(state, m_streamPosition, Output, Offset, Length);
+		IntegerTools::Clear(state);
 		m_streamPosition += Length;
 	}
 
@@ -168,9 +180,10 @@ uint8_t SecureStream::ReadByte()
 	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream capacity exceeded");
 
 	uint8_t data = 0;
-	Transform();
-	MemoryTools::CopyToValue(m_streamData, m_streamPosition, data, 1);
-	Transform();
+	std::vector<uint8_t> state = Transform(m_streamData.size());
+
+	MemoryTools::CopyToValue(state, m_streamPosition, data, 1);
+	IntegerTools::Clear(state);
 	m_streamPosition += 1;
 
 	return data;
@@ -201,7 +214,15 @@ void SecureStream::Seek(uint64_t Offset, SeekOrigin Origin)
 
 void SecureStream::SetLength(uint64_t Length)
 {
-	m_streamData.reserve(Length);
+	std::vector<uint8_t> state = Transform(Length);
+
+	if (state.size() > Length)
+	{
+		MemoryTools::Clear(state, Length, state.size() - Length);
+		state.resize(Length);
+	}
+
+	Store(state);
 }
 
 std::vector<uint8_t> SecureStream::ToArray()
@@ -210,9 +231,7 @@ std::vector<uint8_t> SecureStream::ToArray()
 
 	if (m_streamData.size() != 0)
 	{
-		Transform();
-		tmp = m_streamData;
-		Transform();
+		tmp = Transform(m_streamData.size());
 	}
 	else
 	{
@@ -230,31 +249,19 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	len = m_streamPosition + Length;
 
-	if (m_streamData.capacity() - m_streamPosition < Length)
-	{
-		m_streamData.reserve(len);
-	}
-	if (m_streamData.size() < len)
-	{
-		m_streamData.resize(len);
-	}
+	std::vector<uint8_t> state = Transform(len);
 
-	Transform();
-	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
-	Transform();
+	MemoryTools::Copy(Input, Offset, state, m_streamPosition, Length);
+	Store(state);
 	m_streamPosition += Length;
 }
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
-	{
-		m_streamData.resize(m_streamData.size() + 1);
-	}
+	std::vector<uint8_t> state = Transform(m_streamPosition + 1);
 
-	Transform();
-	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
-	Transform();
+	MemoryTools::CopyFromValue(Value, state, m_streamPosition, 1);
+	Store(state);
 	m_streamPosition += 1;
 }
 
@@ -281,8 +288,30 @@ std::vector<uint8_t> SecureStream::GetSystemKey()
 	return hash;
 }
 
-void SecureStream::Transform()
+void SecureStream::Store(std::vector<uint8_t> &State)
+{
+	// encrypt a copy of the new content, the stream changes only when that has succeeded
+	m_streamData.swap(State);
+
+	try
+	{
+		std::vector<uint8_t> tmp = Transform(m_streamData.size());
+		m_streamData.swap(tmp);
+		IntegerTools::Clear(tmp);
+	}
+	catch (...)
+	{
+		m_streamData.swap(State);
+		IntegerTools::Clear(State);
+		throw;
+	}
+}
+
+std::vector<uint8_t> SecureStream::Transform(size_t Length)
 {
+	// the transformed content, padded with zeroes to the length
+	std::vector<uint8_t> state((std::max)(Length, m_streamData.size()));
+
 	if (m_streamData.size() != 0)
 	{
 		std::vector<uint8_t> seed = GetSystemKey();
@@ -291,15 +320,32 @@ void SecureStream::Transform()
 
 		MemoryTools::Copy(seed, 0, key, 0, key.size());
 		MemoryTools::Copy(seed, key.size(), iv, 0, iv.size());
+
+		// the key is derived again each time, do not pass off the result of another key as the content
+		std::vector<uint8_t> chk(seed.begin() + key.size() + iv.size(), seed.end());
+
+		if (m_keyCheck.size() == 0)
+		{
+			m_keyCheck = chk;
+		}
+		else if (m_keyCheck != chk)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Transform"), std::string("The system key has changed!"), ErrorCodes::InvalidKey);
+		}
+
 		Cipher::SymmetricKey kp(key, iv);
 
 		// AES256-CTR
 		Cipher::Block::Mode::CTR cpr(Enumeration::BlockCiphers::AES);
 		cpr.Initialize(true, kp);
-		std::vector<uint8_t> state(m_streamData.size());
-		cpr.Transform(m_streamData, 0, state, 0, state.size());
-		m_streamData = state;
+		cpr.Transform(m_streamData, 0, state, 0, m_streamData.size());
+
+		IntegerTools::Clear(seed);
+		IntegerTools::Clear(key);
+		IntegerTools::Clear(iv);
 	}
+
+	return state;
 }
 
 NAMESPACE_IOEND
diff --git a/CEX/SecureStream.h b/CEX/SecureStream.h
index c122368..2281d8e 100644
--- a/CEX/SecureStream.h
+++ b/CEX/SecureStream.h
@@ -16,6 +16,7 @@ private:
 	static const std::string CLASS_NAME;
 
 	bool m_isDestroyed;
+	std::vector<uint8_t> m_keyCheck;
 	std::vector<uint8_t> m_keySalt;
 	std::vector<uint8_t> m_streamData;
 	uint64_t m_streamPosition;
@@ -190,7 +191,8 @@ public:
 private:
 
 	std::vector<uint8_t> GetSystemKey();
-	void Transform();
+	void Store(std::vector<uint8_t> &State);
+	std::vector<uint8_t> Transform(size_t Length);
 };
 
 NAMESPACE_IOEND
diff --git a/CEX/SystemTools.cpp b/CEX/SystemTools.cpp
index 98c4d40..6390afa 100644
--- a/CEX/SystemTools.cpp
+++ b/CEX/SystemTools.cpp
@@ -14,14 +14,21 @@ std::string SystemTools::ComputerName()
 	{
 		TCHAR buf[MAX_COMPUTERNAME_LENGTH + 1];
 		DWORD buffLen = sizeof(buf) / sizeof(TCHAR);
-		GetComputerName(buf, &buffLen);
 
+		if (GetComputerName(buf, &buffLen))
+		{
 #if defined(UNICODE)
-		std::wstring cpy(reinterpret_cast<wchar_t*>(buf), buffLen);
-		res.assign(cpy.begin(), cpy.end());
+			std::wstring cpy(reinterpret_cast<wchar_t*>(buf), buffLen);
+			res.assign(cpy.begin(), cpy.end());
 #else
-		res.assign((char*)buf, buffLen);
+			res.assign((char*)buf, buffLen);
 #endif
+		}
+	}
+	catch (std::bad_alloc&)
+	{
+		// a key derived from an incomplete name is the wrong key
+		throw;
 	}
 	catch (std::exception&) 
 	{
@@ -600,13 +607,20 @@ std::string SystemTools::UserName()
 	{
 		TCHAR buf[UNLEN + 1];
 		DWORD buffLen = sizeof(buf) / sizeof(TCHAR);
-		GetUserName(buf, &buffLen);
+
+		if (GetUserName(buf, &buffLen))
+		{
 #if defined(UNICODE)
-		std::wstring cpy(reinterpret_cast<wchar_t*>(buf), buffLen);
-		res.assign(cpy.begin(), cpy.end());
+			std::wstring cpy(reinterpret_cast<wchar_t*>(buf), buffLen);
+			res.assign(cpy.begin(), cpy.end());
 #else
-		res.assign((char*)buf, buffLen);
+			res.assign((char*)buf, buffLen);
 #endif
+		}
+	}
+	catch (std::bad_alloc&)
+	{
+		throw;
 	}
 	catch (std::exception&)
 	{
@@ -1170,6 +1184,10 @@ std::string SystemTools::Version()
 				hToken = NULL;
 			}
 		}
+		catch (std::bad_alloc&)
+		{
+			throw;
+		}
 		catch (std::exception&) 
 		{
 		}
-- 
2.43.0


From 34977d5f8fc858cd36c71eab682b693b41903d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 31/78] fix: FileStream reports failing opens, reads, writes
 and flushes, keeps its length and position right, and copies and resizes
 files without changing their content

---
 CEX/FileStream.cpp | 251 ++++++++++++++++++++++++++++++---------------
 CEX/FileStream.h   |   4 +
 2 files changed, 171 insertions(+), 84 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index f6e177a..e31a91a 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -1,4 +1,5 @@
 #include "FileStream.h"
+#include <algorithm>
 
 #if defined(CEX_OS_WINDOWS)
 #	include <io.h>  
@@ -31,17 +32,31 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file does not exist!"), ErrorCodes::InvalidParam);
 	}
 
-	m_fileSize = FileSize(m_fileName);
-
-	try
+	if (Access == FileAccess::ReadWrite && !FileExists(m_fileName))
 	{
-		m_fileStream.open(m_fileName, static_cast<int32_t>(Access) | static_cast<int32_t>(Mode));
-		m_fileStream.unsetf(std::ios::skipws);
+		// opening for reading and writing does not create the file
+		std::ofstream create(m_fileName, std::ios::binary | std::ios::app);
 	}
-	catch (std::exception&)
+
+	// the stream is an array of bytes, text conversions are never wanted
+	m_fileStream.open(m_fileName, static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)) | std::ios::binary);
+
+	if (!m_fileStream.is_open())
 	{
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
 	}
+
+	m_fileStream.unsetf(std::ios::skipws);
+	m_fileStream.seekg(0, std::ios::end);
+	const std::streamoff FLELEN = m_fileStream.tellg();
+
+	if (FLELEN < 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file size could not be read!"), ErrorCodes::UnKnown);
+	}
+
+	m_fileSize = static_cast<uint64_t>(FLELEN);
+	SetPosition(Mode == FileModes::AtEnd ? m_fileSize : 0, std::string("Constructor"));
 }
 
 FileStream::~FileStream()
@@ -110,55 +125,47 @@ std::fstream &FileStream::Stream()
 
 void FileStream::Close()
 {
-	if (m_fileStream && m_fileStream.is_open())
+	if (m_fileStream.is_open())
 	{
-		if (m_fileWritten != 0)
-		{
-			m_fileStream.flush();
-		}
-
+		m_fileStream.clear();
+		m_fileStream.flush();
+		const bool FLUSHED = m_fileStream.good();
+		m_fileStream.clear();
 		m_fileStream.close();
+		const bool CLOSED = m_fileStream.good();
 		m_fileSize = 0;
 		m_filePosition = 0;
+		m_fileWritten = 0;
+
+		if (!FLUSHED || !CLOSED)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Close"), std::string("The data could not be written to the file!"), ErrorCodes::UnKnown);
+		}
 	}
 }
 
 void FileStream::CopyTo(IByteStream* Destination)
 {
-	CEXASSERT(m_fileSize != 0, "Stream is too int16_t");
+	const uint64_t FLEPOS = m_filePosition;
+	std::vector<uint8_t> buffer(CHUNK_SIZE);
+	size_t plen;
 
 	Destination->Seek(0, IO::SeekOrigin::Begin);
+	SetPosition(0, std::string("CopyTo"));
 
-	if (m_fileSize > CHUNK_SIZE)
+	while (m_filePosition < m_fileSize)
 	{
-		const size_t ALNLEN = m_fileSize - (m_fileSize % CHUNK_SIZE);
-		std::vector<uint8_t> buffer(CHUNK_SIZE);
-		m_fileStream.seekg(0, std::ios::beg);
-
-		uint32_t bteCtr = 0;
+		plen = Read(buffer, 0, CHUNK_SIZE);
 
-		if (ALNLEN >= CHUNK_SIZE)
+		if (plen == 0)
 		{
-			while (bteCtr != ALNLEN)
-			{
-				m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
-				Destination->Write(buffer, bteCtr, CHUNK_SIZE);
-				bteCtr += CHUNK_SIZE;
-			}
+			throw CryptoProcessingException(CLASS_NAME, std::string("CopyTo"), std::string("The file is shorter than expected!"), ErrorCodes::UnKnown);
 		}
 
-		if (ALNLEN != m_fileSize)
-		{
-			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize - ALNLEN);
-			Destination->Write(buffer, ALNLEN, m_fileSize - ALNLEN);
-		}
-	}
-	else
-	{
-		std::vector<uint8_t> buffer(m_fileSize);
-		m_fileStream.seekg(0, std::ios::beg);
-		Destination->Write(buffer, 0, m_fileSize);
+		Destination->Write(buffer, 0, plen);
 	}
+
+	SetPosition(FLEPOS, std::string("CopyTo"));
 }
 
 void FileStream::Destroy()
@@ -166,8 +173,15 @@ void FileStream::Destroy()
 	if (!m_isDestroyed)
 	{
 		m_isDestroyed = true;
-		m_filePosition = 0;
-		Close();
+
+		try
+		{
+			Close();
+		}
+		catch (CryptoProcessingException&)
+		{
+			// call Close to learn that the data could not be written
+		}
 	}
 }
 
@@ -196,9 +210,24 @@ void FileStream::Flush()
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
-	if (m_fileStream && m_fileWritten != 0)
+	if (m_fileStream.is_open())
 	{
+		const bool FAILED = !m_fileStream;
+
+		m_fileStream.clear();
 		m_fileStream.flush();
+		m_fileWritten = 0;
+
+		if (!m_fileStream)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Flush"), std::string("The data could not be written to the file!"), ErrorCodes::UnKnown);
+		}
+
+		if (FAILED)
+		{
+			// an earlier operation failed
+			SetPosition(m_filePosition, std::string("Flush"));
+		}
 	}
 }
 
@@ -206,19 +235,42 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 {
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	if (Offset + Length > m_fileSize - m_filePosition)
+	const uint64_t RMDLEN = (m_filePosition < m_fileSize) ? m_fileSize - m_filePosition : 0;
+	size_t plen;
+
+	plen = 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_fileSize - m_filePosition;
+		Length = static_cast<size_t>(RMDLEN);
 	}
 
 	if (Length > 0)
 	{
+		if (m_fileWritten != 0)
+		{
+			Flush();
+		}
+
+		if (!m_fileStream)
+		{
+			// an earlier operation failed
+			SetPosition(m_filePosition, std::string("Read"));
+		}
+
 		// read the data:
 		m_fileStream.read(reinterpret_cast<char*>(&Output[Offset]), Length);
-		m_filePosition += Length;
+		plen = static_cast<size_t>(m_fileStream.gcount());
+
+		if (m_fileStream.bad() || !m_fileStream.is_open())
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Read"), std::string("The file could not be read!"), ErrorCodes::UnKnown);
+		}
+
+		m_filePosition += plen;
 	}
 
-	return Length;
+	return plen;
 }
 
 uint8_t FileStream::ReadByte()
@@ -226,92 +278,123 @@ uint8_t FileStream::ReadByte()
 	CEXASSERT(m_fileSize - m_filePosition >= 1, "Reached end of file");
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	uint8_t data(1);
-	m_fileStream.read(reinterpret_cast<char*>(&data), 1);
-	m_filePosition += 1;
+	std::vector<uint8_t> data(1);
 
-	return data;
+	if (Read(data, 0, 1) != 1)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("The end of the file has been reached!"), ErrorCodes::InvalidParam);
+	}
+
+	return data[0];
 }
 
 void FileStream::Reset()
 {
-	m_fileStream.seekg(0, std::ios::beg);
-	m_filePosition = 0;
+	SetPosition(0, std::string("Reset"));
 }
 
 void FileStream::Seek(uint64_t Offset, SeekOrigin Origin)
 {
 	if (Origin == SeekOrigin::Begin)
 	{
-		m_fileStream.seekg(Offset, std::ios::beg);
+		SetPosition(Offset, std::string("Seek"));
 	}
 	else if (Origin == SeekOrigin::End)
 	{
-		m_fileStream.seekg(Offset, std::ios::end);
+		SetPosition(m_fileSize - Offset, std::string("Seek"));
 	}
 	else
 	{
-		m_fileStream.seekg(Offset, std::ios::cur);
+		SetPosition(m_filePosition + Offset, std::string("Seek"));
 	}
-
-	m_filePosition = static_cast<uint64_t>(m_fileStream.tellg());
 }
 
 void FileStream::SetLength(uint64_t Length)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
-	if (Length < m_fileSize)
-	{
+	bool res;
+
+	res = false;
+	Flush();
+
 #if defined(CEX_OS_WINDOWS)
-		int32_t handle = 0;
+	int32_t handle = 0;
 
-		if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
-		{
-			_chsize(handle, Length);
-		}
+	if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
+	{
+		res = _chsize_s(handle, Length) == 0;
+		_close(handle);
+	}
 #elif defined(CEX_OS_POSIX)
-		truncate(m_fileName.c_str(), Length);
+	res = truncate(m_fileName.c_str(), Length) == 0;
 #endif
-	}
-	else
+
+	if (!res)
 	{
-		m_fileStream.seekg(Length - 1, std::ios::beg);
-		m_fileStream.write("", 1);
-		m_fileStream.seekg(0, std::ios::beg);
+		throw CryptoProcessingException(CLASS_NAME, std::string("SetLength"), std::string("The file length could not be changed!"), ErrorCodes::UnKnown);
 	}
+
+	m_fileSize = Length;
+	// drops the buffered content
+	SetPosition((std::min)(m_filePosition, Length), std::string("SetLength"));
 }
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
 {
 	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
 
-	m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
-	m_filePosition += Length;
-	m_fileSize += Length;
-	m_fileWritten += Length;
-
-	if (m_fileWritten >= CHUNK_SIZE)
+	if (Length != 0)
 	{
-		m_fileStream.flush();
-		m_fileWritten = 0;
+		if (m_fileMode == FileModes::Append)
+		{
+			m_filePosition = m_fileSize;
+		}
+
+		if (!m_fileStream)
+		{
+			// an earlier operation failed
+			SetPosition(m_filePosition, std::string("Write"));
+		}
+
+		m_fileStream.write(reinterpret_cast<const char*>(Input.data() + Offset), Length);
+
+		if (!m_fileStream)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The data could not be written to the file!"), ErrorCodes::UnKnown);
+		}
+
+		m_filePosition += Length;
+		m_fileSize = (std::max)(m_fileSize, m_filePosition);
+		m_fileWritten += Length;
+
+		if (m_fileWritten >= CHUNK_SIZE)
+		{
+			Flush();
+		}
 	}
 }
 
 void FileStream::WriteByte(uint8_t Value)
 {
-	CEXASSERT(m_fileAccess != FileAccess::Read, "File is read only");
+	const std::vector<uint8_t> DATA(1, Value);
+
+	Write(DATA, 0, 1);
+}
 
-	m_fileStream.write(reinterpret_cast<char*>(&Value), 1);
-	m_filePosition++;
-	m_fileSize++;
-	m_fileWritten++;
+//~~~Private Functions~~~//
 
-	if (m_fileWritten >= CHUNK_SIZE)
+void FileStream::SetPosition(uint64_t Position, const std::string &Caller)
+{
+	m_fileStream.clear();
+	m_fileStream.seekg(static_cast<std::streamoff>(Position), std::ios::beg);
+
+	if (!m_fileStream)
 	{
-		m_fileStream.flush();
-		m_fileWritten = 0;
+		throw CryptoProcessingException(CLASS_NAME, Caller, std::string("The position in the file could not be set!"), ErrorCodes::UnKnown);
 	}
+
+	m_filePosition = Position;
 }
 
 NAMESPACE_IOEND
diff --git a/CEX/FileStream.h b/CEX/FileStream.h
index 36ec6c9..135335a 100644
--- a/CEX/FileStream.h
+++ b/CEX/FileStream.h
@@ -241,6 +241,10 @@ public:
 	///
 	/// <param name="Value">The uint8_t value to write</param>
 	void WriteByte(uint8_t Value) override;
+
+private:
+
+	void SetPosition(uint64_t Position, const std::string &Caller);
 };
 
 NAMESPACE_IOEND
-- 
2.43.0


From df2a9d6224b1f1e6e9c86b9b335127b9741ae047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 32/78] fix: MacFromName creates KMAC128

---
 CEX/MacFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/MacFromName.cpp b/CEX/MacFromName.cpp
index 383561a..cd0a2f7 100644
--- a/CEX/MacFromName.cpp
+++ b/CEX/MacFromName.cpp
@@ -93,6 +93,11 @@ IMac* MacFromName::GetInstance(Macs MacType)
 				mptr = new HMAC(SHA2Digests::SHA2512);
 				break;
 			}
+			case Macs::KMAC128:
+			{
+				mptr = new KMAC(KmacModes::KMAC128);
+				break;
+			}
 			case Macs::KMAC256:
 			{
 				mptr = new KMAC(KmacModes::KMAC256);
-- 
2.43.0


From 94ee07fbc1e57a1a32a4aa85fb40dd91306a2b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 33/78] fix: CipherStream pads aligned input, processes single
 blocks, honours the output offset, and refuses ragged, empty and early-ending
 input

---
 CEX/CipherStream.cpp | 257 ++++++++++++++++++++++++++-----------------
 CEX/CipherStream.h   |   2 +
 2 files changed, 155 insertions(+), 104 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..1898c1d 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -4,6 +4,7 @@
 #include "IntegerTools.h"
 #include "PaddingFromName.h"
 #include "StreamCipherFromName.h"
+#include "X923.h"
 
 NAMESPACE_PROCESSING
 
@@ -17,6 +18,7 @@ class CipherStream::CipherState
 public:
 
 	bool Destroy;
+	bool DestroyPadding;
 	bool Buffered;
 	bool CounterMode;
 	bool Encryption;
@@ -25,6 +27,7 @@ public:
 	CipherState(bool IsCounter, bool Destroyed)
 		:
 		Destroy(Destroyed),
+		DestroyPadding(Destroyed),
 		Buffered(false),
 		CounterMode(IsCounter),
 		Encryption(false),
@@ -36,6 +39,7 @@ public:
 	~CipherState()
 	{
 		Destroy = false;
+		DestroyPadding = false;
 		Buffered = false;
 		CounterMode = false;
 		Encryption = false;
@@ -52,7 +56,8 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ||
+		(CipherModeType == CipherModes::ECB && PaddingType != PaddingModes::None) ? GetPaddingMode(PaddingType) : nullptr),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -65,20 +70,23 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherPadding(Padding),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
+	if (m_cipherPadding == nullptr && !m_cipherState->CounterMode)
+	{
+		m_cipherPadding.reset(new Cipher::Block::Padding::X923);
+		m_cipherState->DestroyPadding = true;
+	}
 }
 
 CipherStream::~CipherStream()
 {
-	if (m_cipherState->Destroy)
+	// the instances passed to the constructor belong to the caller
+	if (!m_cipherState->Destroy)
 	{
-		if (m_cipherEngine != nullptr)
-		{
-			m_cipherEngine.reset(nullptr);
-		}
-		if (m_cipherPadding != nullptr)
-		{
-			m_cipherPadding.reset(nullptr);
-		}
+		m_cipherEngine.release();
+	}
+	if (!m_cipherState->DestroyPadding)
+	{
+		m_cipherPadding.release();
 	}
 
 	IntegerTools::Clear(m_legalKeySizes);
@@ -146,8 +154,15 @@ void CipherStream::ParallelMaxDegree(size_t Degree)
 
 void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(InStream->Length() - InStream->Position() > 0, "The Input stream is too int16_t");
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (InStream->Length() <= InStream->Position())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input stream is empty!"), ErrorCodes::InvalidParam);
+	}
+
 	CEXASSERT(InStream->CanRead(), "The Input stream is set to write only!");
 	CEXASSERT(OutStream->CanRead() || OutStream->CanWrite(), "The Output stream is to read only!");
 
@@ -161,8 +176,15 @@ void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 
 void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(Input.size() - InOffset > 0, "The input array is too int16_t");
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (Input.size() <= InOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input array is empty!"), ErrorCodes::InvalidParam);
+	}
+
 	CEXASSERT(Input.size() - InOffset <= Output.size() - OutOffset, "The output array is too int16_t!");
 
 	BlockTransform(Input, InOffset, Output, OutOffset);
@@ -170,9 +192,35 @@ void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std
 
 //~~~Private Functions~~~//
 
+size_t CipherStream::AlignedLength(size_t Length)
+{
+	// the number of bytes before the final block, which carries the padding
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t RMDLEN = Length % BLKLEN;
+	size_t alen;
+
+	if (m_cipherState->CounterMode || (m_cipherPadding != nullptr && m_cipherState->Encryption))
+	{
+		alen = Length - RMDLEN;
+	}
+	else
+	{
+		if (RMDLEN != 0)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input is not a multiple of the block size!"), ErrorCodes::InvalidSize);
+		}
+
+		alen = (m_cipherPadding != nullptr) ? Length - BLKLEN : Length;
+	}
+
+	return alen;
+}
+
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
 	const size_t INPLEN = Input.size() - InOffset;
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t ALNLEN = AlignedLength(INPLEN);
 	size_t plen;
 
 	plen = 0;
@@ -180,40 +228,31 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
-		if (INPLEN > PRLBLK)
-		{
-			const size_t PRCLEN = (INPLEN % PRLBLK != 0 || m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / PRLBLK) * PRLBLK : ((INPLEN / PRLBLK) * PRLBLK) - PRLBLK;
+		const size_t PRCLEN = (ALNLEN / PRLBLK) * PRLBLK;
 
-			while (plen != PRCLEN)
-			{
-				m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, PRLBLK);
-				InOffset += PRLBLK;
-				OutOffset += PRLBLK;
-				plen += PRLBLK;
-				CalculateProgress(INPLEN, InOffset);
-			}
+		while (plen != PRCLEN)
+		{
+			m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, PRLBLK);
+			InOffset += PRLBLK;
+			OutOffset += PRLBLK;
+			plen += PRLBLK;
+			CalculateProgress(INPLEN, plen);
 		}
 	}
 
-	const size_t BLKLEN = m_cipherEngine->BlockSize();
-	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
-
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
-			InOffset += BLKLEN;
-			OutOffset += BLKLEN;
-			plen += BLKLEN;
-			CalculateProgress(INPLEN, InOffset);
-		}
+		m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
+		InOffset += BLKLEN;
+		OutOffset += BLKLEN;
+		plen += BLKLEN;
+		CalculateProgress(INPLEN, plen);
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (m_cipherState->CounterMode)
 	{
-		if (m_cipherState->CounterMode)
+		if (ALNLEN != INPLEN)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
@@ -221,125 +260,135 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			std::vector<uint8_t> otp(BLKLEN);
 			m_cipherEngine->Transform(inp, 0, otp, 0, FNLLEN);
 			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
-			plen += FNLLEN;
 		}
-		else if (m_cipherState->Encryption)
-		{
-			const size_t FNLLEN = INPLEN - ALNLEN;
-			std::vector<uint8_t> inp(BLKLEN);
-			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
-			}
-			plen += BLKLEN;
+	}
+	else if (m_cipherPadding != nullptr)
+	{
+		std::vector<uint8_t> inp(BLKLEN);
+		std::vector<uint8_t> otp(BLKLEN);
+		size_t flen;
 
-			if (Output.size() != plen)
-			{
-				Output.resize(plen);
-			}
+		MemoryTools::Copy(Input, InOffset, inp, 0, INPLEN - ALNLEN);
+		flen = BLKLEN;
 
-			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
+		if (m_cipherState->Encryption)
+		{
+			m_cipherPadding->AddPadding(inp, INPLEN - ALNLEN, inp.size());
+			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 		}
 		else
 		{
-			std::vector<uint8_t> otp(BLKLEN);
-			m_cipherEngine->DecryptBlock(Input, InOffset, otp, 0);
-			const size_t FNLLEN = m_cipherPadding->GetBlockLength(otp);
-			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
-			plen += FNLLEN;
+			m_cipherEngine->DecryptBlock(inp, 0, otp, 0);
+			flen = m_cipherPadding->GetBlockLength(otp);
+		}
 
-			if (Output.size() != plen)
-			{
-				Output.resize(plen);
-			}
+		// the size of the array is the end of the output
+		if (Output.size() != OutOffset + flen)
+		{
+			Output.resize(OutOffset + flen);
 		}
+
+		MemoryTools::Copy(otp, 0, Output, OutOffset, flen);
 	}
 
-	CalculateProgress(INPLEN, InOffset);
+	CalculateProgress(INPLEN, INPLEN);
 }
 
 void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 {
 	const size_t INPLEN = InStream->Length() - InStream->Position();
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t ALNLEN = AlignedLength(INPLEN);
 	size_t plen;
-	size_t pread;
 	std::vector<uint8_t> inp(0);
 	std::vector<uint8_t> otp(0);
 
 	plen = 0;
-	pread = 0;
 
 	if (IsParallel())
 	{
 		const size_t PRLBLK = m_cipherEngine->ParallelBlockSize();
-		if (INPLEN > PRLBLK)
+		const size_t PRCLEN = (ALNLEN / PRLBLK) * PRLBLK;
+
+		if (PRCLEN != 0)
 		{
-			const size_t PRCLEN = (INPLEN % PRLBLK != 0 || m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / PRLBLK) * PRLBLK : ((INPLEN / PRLBLK) * PRLBLK) - PRLBLK;
 			inp.resize(PRLBLK);
 			otp.resize(PRLBLK);
+		}
 
-			while (plen != PRCLEN)
-			{
-				pread = InStream->Read(inp, 0, PRLBLK);
-				m_cipherEngine->Transform(inp, 0, otp, 0, pread);
-				OutStream->Write(otp, 0, pread);
-				plen += pread;
-				CalculateProgress(INPLEN, OutStream->Position());
-			}
+		while (plen != PRCLEN)
+		{
+			ReadBlock(InStream, inp, PRLBLK);
+			m_cipherEngine->Transform(inp, 0, otp, 0, PRLBLK);
+			OutStream->Write(otp, 0, PRLBLK);
+			plen += PRLBLK;
+			CalculateProgress(INPLEN, plen);
 		}
 	}
 
-	const size_t BLKLEN = m_cipherEngine->BlockSize();
-	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			pread = InStream->Read(inp, 0, BLKLEN);
-			m_cipherEngine->Transform(inp, 0, otp, 0, pread);
-			OutStream->Write(otp, 0, pread);
-			plen += pread;
-			CalculateProgress(INPLEN, OutStream->Position());
-		}
+		ReadBlock(InStream, inp, BLKLEN);
+		m_cipherEngine->Transform(inp, 0, otp, 0, BLKLEN);
+		OutStream->Write(otp, 0, BLKLEN);
+		plen += BLKLEN;
+		CalculateProgress(INPLEN, plen);
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (m_cipherState->CounterMode)
 	{
-		if (m_cipherState->CounterMode)
+		if (ALNLEN != INPLEN)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			MemoryTools::Clear(otp, 0, otp.size());
 			MemoryTools::Clear(inp, 0, inp.size());
-			pread = InStream->Read(inp, 0, FNLLEN);
-			m_cipherEngine->Transform(inp, 0, otp, 0, pread);
-			OutStream->Write(otp, 0, pread);
+			ReadBlock(InStream, inp, FNLLEN);
+			m_cipherEngine->Transform(inp, 0, otp, 0, FNLLEN);
+			OutStream->Write(otp, 0, FNLLEN);
 		}
-		else if (m_cipherState->Encryption)
+	}
+	else if (m_cipherPadding != nullptr)
+	{
+		ReadBlock(InStream, inp, INPLEN - ALNLEN);
+
+		if (m_cipherState->Encryption)
 		{
-			const size_t FNLLEN = INPLEN - ALNLEN;
-			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			m_cipherPadding->AddPadding(inp, INPLEN - ALNLEN, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
 		else
 		{
-			InStream->Read(inp, 0, BLKLEN);
 			m_cipherEngine->DecryptBlock(inp, 0, otp, 0);
-			const size_t FNLLEN = m_cipherPadding->GetBlockLength(otp);
-			OutStream->Write(otp, 0, FNLLEN);
+			OutStream->Write(otp, 0, m_cipherPadding->GetBlockLength(otp));
 		}
 	}
 
-	CalculateProgress(INPLEN, OutStream->Position());
+	CalculateProgress(INPLEN, INPLEN);
+}
+
+void CipherStream::ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length)
+{
+	size_t plen;
+	size_t pread;
+
+	plen = 0;
+
+	while (plen != Length)
+	{
+		pread = InStream->Read(Output, plen, Length - plen);
+
+		if (pread == 0)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input stream ended early!"), ErrorCodes::InvalidSize);
+		}
+
+		plen += pread;
+	}
 }
 
 void CipherStream::CalculateProgress(size_t Length, size_t Processed)
diff --git a/CEX/CipherStream.h b/CEX/CipherStream.h
index 8e34bc7..167b01f 100644
--- a/CEX/CipherStream.h
+++ b/CEX/CipherStream.h
@@ -266,11 +266,13 @@ public:
 
 private:
 
+	size_t AlignedLength(size_t Length);
 	void BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset);
 	void BlockTransform(IByteStream* InStream, IByteStream* OutStream);
 	void CalculateProgress(size_t Length, size_t Processed);
 	static ICipherMode* GetCipherMode(BlockCiphers CipherType, CipherModes CipherModeType);
 	static IPadding* GetPaddingMode(PaddingModes PaddingType);
+	static void ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length);
 };
 
 NAMESPACE_PROCESSINGEND
-- 
2.43.0


From ef0c4fd658977ec7cf078af39dc36b59e65b6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:01 +0000
Subject: [PATCH 34/78] fix: DigestStream and MacStream read short-delivering
 sources to the end and report one that ends early; MacStream leaves the
 caller's mac alone

---
 CEX/DigestStream.cpp | 40 +++++++++++++++++++--------
 CEX/DigestStream.h   |  1 +
 CEX/MacStream.cpp    | 66 +++++++++++++++++++++++++++++++++-----------
 CEX/MacStream.h      |  1 +
 4 files changed, 81 insertions(+), 27 deletions(-)

diff --git a/CEX/DigestStream.cpp b/CEX/DigestStream.cpp
index abbb286..7d56023 100644
--- a/CEX/DigestStream.cpp
+++ b/CEX/DigestStream.cpp
@@ -167,17 +167,35 @@ void DigestStream::CalculateProgress(size_t Length, size_t Processed)
 	}
 }
 
+void DigestStream::ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length)
+{
+	size_t plen;
+	size_t pread;
+
+	plen = 0;
+
+	while (plen != Length)
+	{
+		pread = InStream->Read(Output, plen, Length - plen);
+
+		if (pread == 0)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input stream ended early!"), ErrorCodes::InvalidSize);
+		}
+
+		plen += pread;
+	}
+}
+
 std::vector<uint8_t> DigestStream::Process(IByteStream* InStream, size_t Length)
 {
 	const size_t BLKLEN = m_digestEngine->BlockSize();
 	const size_t ALNLEN = (Length / BLKLEN) * BLKLEN;
 	size_t plen;
-	size_t pread;
 	std::vector<uint8_t> inp;
 	std::vector<uint8_t> tmph;
 
 	plen = 0;
-	pread = 0;
 
 	if (m_streamState->Parallel)
 	{
@@ -190,9 +208,9 @@ std::vector<uint8_t> DigestStream::Process(IByteStream* InStream, size_t Length)
 
 			while (plen != PRCLEN)
 			{
-				pread = InStream->Read(inp, 0, PRLBLK);
-				m_digestEngine->Update(inp, 0, pread);
-				plen += pread;
+				ReadBlock(InStream, inp, PRLBLK);
+				m_digestEngine->Update(inp, 0, PRLBLK);
+				plen += PRLBLK;
 				CalculateProgress(Length, InStream->Position());
 			}
 		}
@@ -202,9 +220,9 @@ std::vector<uint8_t> DigestStream::Process(IByteStream* InStream, size_t Length)
 
 	while (plen != ALNLEN)
 	{
-		pread = InStream->Read(inp, 0, BLKLEN);
-		m_digestEngine->Update(inp, 0, pread);
-		plen += pread;
+		ReadBlock(InStream, inp, BLKLEN);
+		m_digestEngine->Update(inp, 0, BLKLEN);
+		plen += BLKLEN;
 		CalculateProgress(Length, InStream->Position());
 	}
 
@@ -213,9 +231,9 @@ std::vector<uint8_t> DigestStream::Process(IByteStream* InStream, size_t Length)
 	{
 		const size_t RMDLEN = Length - plen;
 		inp.resize(RMDLEN);
-		pread = InStream->Read(inp, 0, RMDLEN);
-		m_digestEngine->Update(inp, 0, pread);
-		plen += pread;
+		ReadBlock(InStream, inp, RMDLEN);
+		m_digestEngine->Update(inp, 0, RMDLEN);
+		plen += RMDLEN;
 	}
 
 	// get the hash
diff --git a/CEX/DigestStream.h b/CEX/DigestStream.h
index 2412bfa..6ce0524 100644
--- a/CEX/DigestStream.h
+++ b/CEX/DigestStream.h
@@ -167,6 +167,7 @@ private:
 	void CalculateInterval(size_t Length);
 	void CalculateProgress(size_t Length, size_t Processed);
 	std::vector<uint8_t> Process(IByteStream* InStream, size_t Length);
+	static void ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length);
 	std::vector<uint8_t> Process(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length);
 };
 
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..948ce75 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -19,12 +19,14 @@ public:
 	size_t Interval;
 	bool Destroy;
 	bool Initialized;
+	bool Partial;
 
 	MacStreamState(bool Destroyed)
 		:
 		Interval(0),
 		Destroy(Destroyed),
-		Initialized(false)
+		Initialized(false),
+		Partial(false)
 	{
 	}
 
@@ -33,6 +35,7 @@ public:
 		Interval = 0;
 		Destroy = false;
 		Initialized = false;
+		Partial = false;
 	}
 };
 
@@ -54,12 +57,10 @@ MacStream::MacStream(IMac* Mac)
 
 MacStream::~MacStream()
 {
-	if (m_streamState->Destroy)
+	// the instance passed to the constructor belongs to the caller
+	if (!m_streamState->Destroy)
 	{
-		if (m_macEngine != nullptr)
-		{
-			m_macEngine.reset(nullptr);
-		}
+		m_macEngine.release();
 	}
 }
 
@@ -74,7 +75,11 @@ const std::vector<SymmetricKeySize> MacStream::LegalKeySizes()
 
 std::vector<uint8_t> MacStream::Compute(IByteStream* InStream)
 {
-	CEXASSERT(m_streamState->Initialized, "The mac has not been initialized");
+	if (!m_macEngine->IsInitialized() || m_streamState->Partial)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The mac has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	CEXASSERT(InStream->Length() - InStream->Position() > 0, "The input stream is too int16_t");
 	CEXASSERT(InStream->CanRead(), "The input stream is set to write only!");
 
@@ -88,7 +93,11 @@ std::vector<uint8_t> MacStream::Compute(IByteStream* InStream)
 
 std::vector<uint8_t> MacStream::Compute(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length)
 {
-	CEXASSERT(m_streamState->Initialized, "The mac has not been initialized");
+	if (!m_macEngine->IsInitialized() || m_streamState->Partial)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The mac has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 	CEXASSERT((Input.size() - InOffset) > 0 && Length + InOffset <= Input.size(), "The input array is too int16_t");
 
 	size_t plen;
@@ -110,6 +119,7 @@ void MacStream::Initialize(ISymmetricKey &Parameters)
 	{
 		m_macEngine->Initialize(Parameters);
 		m_streamState->Initialized = true;
+		m_streamState->Partial = false;
 	}
 	catch (CryptoMacException &ex)
 	{
@@ -174,24 +184,44 @@ void MacStream::CalculateProgress(size_t Length, size_t Processed)
 	}
 }
 
+void MacStream::ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length)
+{
+	size_t plen;
+	size_t pread;
+
+	plen = 0;
+
+	while (plen != Length)
+	{
+		pread = InStream->Read(Output, plen, Length - plen);
+
+		if (pread == 0)
+		{
+			throw CryptoProcessingException(CLASS_NAME, std::string("Compute"), std::string("The input stream ended early!"), ErrorCodes::InvalidSize);
+		}
+
+		plen += pread;
+	}
+}
+
 std::vector<uint8_t> MacStream::Process(IByteStream* InStream, size_t Length)
 {
 	const size_t BLKLEN = m_macEngine->BlockSize();
 	const size_t ALNLEN = (Length / BLKLEN) * BLKLEN;
 	std::vector<uint8_t> tmph;
 	size_t plen;
-	size_t pread;
 
 	std::vector<uint8_t> inpBuffer(BLKLEN);
 
+	// if this fails, a part of the message stays in the mac state
+	m_streamState->Partial = true;
 	plen = 0;
-	pread = 0;
 
 	while (plen != ALNLEN)
 	{
-		pread = InStream->Read(inpBuffer, 0, BLKLEN);
-		m_macEngine->Update(inpBuffer, 0, pread);
-		plen += pread;
+		ReadBlock(InStream, inpBuffer, BLKLEN);
+		m_macEngine->Update(inpBuffer, 0, BLKLEN);
+		plen += BLKLEN;
 		CalculateProgress(Length, InStream->Position());
 	}
 
@@ -200,14 +230,15 @@ std::vector<uint8_t> MacStream::Process(IByteStream* InStream, size_t Length)
 	{
 		const size_t FNLLEN = Length - plen;
 		inpBuffer.resize(FNLLEN);
-		pread = InStream->Read(inpBuffer, 0, FNLLEN);
-		m_macEngine->Update(inpBuffer, 0, pread);
-		plen += pread;
+		ReadBlock(InStream, inpBuffer, FNLLEN);
+		m_macEngine->Update(inpBuffer, 0, FNLLEN);
+		plen += FNLLEN;
 	}
 
 	// get the hash
 	tmph.resize(m_macEngine->TagSize());
 	m_macEngine->Finalize(tmph, 0);
+	m_streamState->Partial = false;
 	CalculateProgress(Length, plen);
 
 	return tmph;
@@ -220,6 +251,8 @@ std::vector<uint8_t> MacStream::Process(const std::vector<uint8_t> &Input, size_
 	std::vector<uint8_t> tmph;
 	size_t plen;
 
+	// if this fails, a part of the message stays in the mac state
+	m_streamState->Partial = true;
 	plen = 0;
 
 	while (plen != ALNLEN)
@@ -241,6 +274,7 @@ std::vector<uint8_t> MacStream::Process(const std::vector<uint8_t> &Input, size_
 	// get the hash
 	tmph.resize(m_macEngine->TagSize());
 	m_macEngine->Finalize(tmph, 0);
+	m_streamState->Partial = false;
 	CalculateProgress(Length, plen);
 
 	return tmph;
diff --git a/CEX/MacStream.h b/CEX/MacStream.h
index f9d44d3..6034324 100644
--- a/CEX/MacStream.h
+++ b/CEX/MacStream.h
@@ -170,6 +170,7 @@ private:
 	void CalculateInterval(size_t Length);
 	void CalculateProgress(size_t Length, size_t Processed);
 	std::vector<uint8_t> Process(IByteStream* InStream, size_t Length);
+	static void ReadBlock(IByteStream* InStream, std::vector<uint8_t> &Output, size_t Length);
 	std::vector<uint8_t> Process(const std::vector<uint8_t> &Input, size_t InOffset, size_t Length);
 };
 
-- 
2.43.0


From 7e2a1dc5fea0c1719e46e96c2533cf0d3d0cb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 35/78] fix: SymmetricKeyGenerator generates a requested info
 without a nonce and frees its provider

---
 CEX/SymmetricKeyGenerator.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 38c0f53..3743628 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -43,7 +43,7 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 
 	SymmetricKey* pkey;
 
-	if (KeySize.IVSize() != 0)
+	if (KeySize.IVSize() != 0 || KeySize.InfoSize() != 0)
 	{
 		if (KeySize.InfoSize() != 0)
 		{
@@ -52,11 +52,15 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 			SecureVector<uint8_t> tmpi(KeySize.InfoSize());
 
 			Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
-			Generate(m_providerType, m_securityPolicy, tmpn, 0, tmpn.size());
+
+			if (tmpn.size() != 0)
+			{
+				Generate(m_providerType, m_securityPolicy, tmpn, 0, tmpn.size());
+			}
+
 			Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
 
 			pkey = new SymmetricKey(tmpk, tmpn, tmpi);
-
 		}
 		else
 		{
@@ -90,7 +94,7 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 
 	SymmetricSecureKey* pkey = nullptr;
 
-	if (KeySize.IVSize() != 0)
+	if (KeySize.IVSize() != 0 || KeySize.InfoSize() != 0)
 	{
 		if (KeySize.InfoSize() != 0)
 		{
@@ -99,7 +103,12 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 			SecureVector<uint8_t> tmpi(KeySize.InfoSize());
 
 			Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
-			Generate(m_providerType, m_securityPolicy, tmpn, 0, tmpn.size());
+
+			if (tmpn.size() != 0)
+			{
+				Generate(m_providerType, m_securityPolicy, tmpn, 0, tmpn.size());
+			}
+
 			Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
 
 			pkey = new SymmetricSecureKey(tmpk, tmpn, tmpi);
@@ -188,7 +197,7 @@ void SymmetricKeyGenerator::Generate(Providers Provider, SecurityPolicy Policy,
 	}
 
 	// instantiate the provider and create the seed
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(Provider);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(Provider));
 	SecureVector<uint8_t> tmpk(klen);
 	pvd->Generate(tmpk);
 
-- 
2.43.0


From 99184ad66e3ec254042beb00f1b792773c86b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 36/78] fix: key containers refuse truncated and oversized
 serialisations, secure keys recognise a changed system key, clone without a
 salt, return exactly the polynomial and free their cipher

---
 CEX/AsymmetricKey.cpp       |  6 +++
 CEX/AsymmetricSecureKey.cpp | 38 +++++++++++++++----
 CEX/SymmetricKey.cpp        | 18 ++++++++-
 CEX/SymmetricSecureKey.cpp  | 76 +++++++++++++++++++------------------
 4 files changed, 91 insertions(+), 47 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..4c6d63d 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -133,6 +133,12 @@ void AsymmetricKey::Reset()
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	// the type codes, and at least one byte of key
+	if (KeyStream.size() < 4)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too short!"), ErrorCodes::InvalidSize);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..17ac547 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -25,6 +25,7 @@ using Cipher::SymmetricKeySize;
 using Tools::SystemTools;
 
 const std::string AsymmetricSecureKey::CLASS_NAME = "AsymmetricSecureKey";
+static const size_t KEYCHECK_SIZE = 16;
 
 //~~~State Container~~~//
 
@@ -32,8 +33,10 @@ class AsymmetricSecureKey::AsymmetricSecureKeyState
 {
 public:
 
+	SecureVector<uint8_t> Check;
 	SecureVector<uint8_t> Polynomial;
 	SecureVector<uint8_t> Salt;
+	size_t Length;
 	AsymmetricPrimitives Primitive;
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
@@ -43,6 +46,7 @@ public:
 		:
 		Polynomial(0),
 		Salt(0),
+		Length(0),
 		KeyClass(AsymmetricKeyTypes::None),
 		Parameters(AsymmetricParameters::None),
 		Policy(SecurityPolicy::None),
@@ -54,6 +58,7 @@ public:
 		:
 		Polynomial(SecureLock(Coefficients)),
 		Salt(SecureLock(KeySalt)),
+		Length(Coefficients.size()),
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
@@ -65,6 +70,7 @@ public:
 		:
 		Polynomial(Coefficients),
 		Salt(KeySalt),
+		Length(Coefficients.size()),
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
@@ -81,6 +87,8 @@ public:
 	{
 		SecureClear(Polynomial);
 		SecureClear(Salt);
+		Length = 0;
+		SecureClear(Check);
 		KeyClass = AsymmetricKeyTypes::None;
 		Parameters = AsymmetricParameters::None;
 		Policy = SecurityPolicy::None;
@@ -132,12 +140,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->Length);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +157,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->Length)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +165,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->Length);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -197,9 +205,9 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 
 void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
-	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
+	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize() + KEYCHECK_SIZE);
 	std::vector<uint8_t> tmpt(0);
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
@@ -219,6 +227,8 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 	MemoryTools::Copy(seed, 0, tmpk, 0, tmpk.size());
 	MemoryTools::Copy(seed, tmpk.size(), tmpn, 0, tmpn.size());
 	SymmetricKey kpc(tmpk, tmpn);
+	// the system key is derived again on each access, keep a check value to recognise it
+	State->Check.assign(seed.end() - KEYCHECK_SIZE, seed.end());
 	// transform the temp state
 	cpr->Initialize(true, kpc);
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
@@ -228,10 +238,16 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 
 void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	if (State->Polynomial.size() == 0)
+	{
+		// the key has been reset
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->Polynomial.size() - cpr->TagSize() : State->Polynomial.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
-	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
+	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize() + KEYCHECK_SIZE);
 	std::vector<uint8_t> tmpt(State->Polynomial.size());
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
@@ -241,6 +257,12 @@ void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &Sta
 	MemoryTools::Copy(seed, 0, tmpk, 0, tmpk.size());
 	MemoryTools::Copy(seed, tmpk.size(), tmpn, 0, tmpn.size());
 	SymmetricKey kpc(tmpk, tmpn);
+
+	if (State->Check != SecureVector<uint8_t>(seed.end() - KEYCHECK_SIZE, seed.end()))
+	{
+		throw CryptoAuthenticationFailure(CLASS_NAME, std::string("Extract"), std::string("The system key has changed!"), ErrorCodes::AuthenticationFailure);
+	}
+
 	cpr->Initialize(false, kpc);
 	// copy from secure-vector to cipher-text buffer
 	std::vector<uint8_t> cpt = SecureUnlock(State->Polynomial);
diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index d5eea77..42ede5a 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -216,10 +216,20 @@ SymmetricKey* SymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	if (KeyStream.size() < 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too short!"), ErrorCodes::InvalidSize);
+	}
+
 	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
 	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
 	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
 
+	if (KeyStream.size() < static_cast<size_t>(klen) + nlen + ilen + 6)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("DeSerialize"), std::string("The key stream is too short!"), ErrorCodes::InvalidSize);
+	}
+
 	if (klen > 0)
 	{
 		key.resize(klen);
@@ -245,12 +255,16 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
+
+	// the parts are stored with 16-bit lengths
+	if (KeyParams.Key().size() > UINT16_MAX || KeyParams.IV().size() > UINT16_MAX || KeyParams.Info().size() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
 
 	klen = static_cast<uint16_t>(KeyParams.Key().size());
 	nlen = static_cast<uint16_t>(KeyParams.IV().size());
 	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..c4e9ea4 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -20,6 +20,7 @@ using Helper::StreamCipherFromName;
 using Tools::SystemTools;
 
 const std::string SymmetricSecureKey::CLASS_NAME = "SymmetricSecureKey";
+static const size_t KEYCHECK_SIZE = 16;
 
 //~~~State Container~~~//
 
@@ -27,6 +28,7 @@ class SymmetricSecureKey::SecureKeyState
 {
 public:
 
+	SecureVector<uint8_t> Check;
 	SecureVector<uint8_t> Salt;
 	SecureVector<uint8_t> State;
 	SymmetricKeySize KeySizes;
@@ -177,6 +179,7 @@ public:
 	void Reset()
 	{
 		SecureClear(Salt);
+		SecureClear(Check);
 		SecureClear(State);
 		KeySizes.Reset();
 		Policy = SecurityPolicy::None;
@@ -395,6 +398,12 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
+	if (m_secureState->Salt.size() == 0)
+	{
+		// a key created without a policy and salt
+		return new SymmetricSecureKey(Key(), IV(), Info());
+	}
+
 	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
 }
 
@@ -407,34 +416,7 @@ void SymmetricSecureKey::Reset()
 
 SymmetricKey* SymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
-	SecureVector<uint8_t> key(0);
-	SecureVector<uint8_t> nonce(0);
-	SecureVector<uint8_t> info(0);
-	uint16_t klen;
-	uint16_t nlen;
-	uint16_t ilen;
-
-	klen = IntegerTools::LeBytesTo16(KeyStream, 0);
-	nlen = IntegerTools::LeBytesTo16(KeyStream, 2);
-	ilen = IntegerTools::LeBytesTo16(KeyStream, 4);
-
-	if (klen > 0)
-	{
-		key.resize(klen);
-		MemoryTools::Copy(KeyStream, 6, key, 0, static_cast<size_t>(klen));
-	}
-	if (nlen > 0)
-	{
-		nonce.resize(nlen);
-		MemoryTools::Copy(KeyStream, klen + 6, nonce, 0, static_cast<size_t>(nlen));
-	}
-	if (ilen > 0)
-	{
-		info.resize(ilen);
-		MemoryTools::Copy(KeyStream, klen + nlen + 6, info, 0, static_cast<size_t>(ilen));
-	}
-
-	return new SymmetricKey(key, nonce, info);
+	return SymmetricKey::DeSerialize(KeyStream);
 }
 
 SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParams)
@@ -443,12 +425,18 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 	uint16_t klen;
 	uint16_t nlen;
 	uint16_t ilen;
-	uint16_t tlen;
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
-	tlen = 6 + klen + nlen + ilen;
+	SymmetricKeySize &ksc = KeyParams.KeySizes();
+
+	// the parts are stored with 16-bit lengths
+	if (ksc.KeySize() > UINT16_MAX || ksc.IVSize() > UINT16_MAX || ksc.InfoSize() > UINT16_MAX)
+	{
+		throw CryptoSymmetricException(CLASS_NAME, std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
+	}
+
+	klen = static_cast<uint16_t>(ksc.KeySize());
+	nlen = static_cast<uint16_t>(ksc.IVSize());
+	ilen = static_cast<uint16_t>(ksc.InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -474,9 +462,9 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
-	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
+	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize() + KEYCHECK_SIZE);
 	std::vector<uint8_t> tmpt(0);
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
@@ -496,6 +484,8 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 	MemoryTools::Copy(seed, 0, tmpk, 0, tmpk.size());
 	MemoryTools::Copy(seed, tmpk.size(), tmpn, 0, tmpn.size());
 	SymmetricKey kpc(tmpk, tmpn);
+	// the system key is derived again on each access, keep a check value to recognise it
+	State->Check.assign(seed.end() - KEYCHECK_SIZE, seed.end());
 	// transform the temp state
 	cpr->Initialize(true, kpc);
 	cpr->Transform(tmpt, 0, cpt, 0, tmpt.size());
@@ -505,10 +495,16 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 
 void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t StateOffset, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	if (State->State.size() == 0)
+	{
+		// the key has been reset
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->State.size() - cpr->TagSize() : State->State.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
-	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
+	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize() + KEYCHECK_SIZE);
 	std::vector<uint8_t> tmpt(State->State.size());
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
@@ -518,6 +514,12 @@ void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t
 	MemoryTools::Copy(seed, 0, tmpk, 0, tmpk.size());
 	MemoryTools::Copy(seed, tmpk.size(), tmpn, 0, tmpn.size());
 	SymmetricKey kpc(tmpk, tmpn);
+
+	if (State->Check != SecureVector<uint8_t>(seed.end() - KEYCHECK_SIZE, seed.end()))
+	{
+		throw CryptoAuthenticationFailure(CLASS_NAME, std::string("Extract"), std::string("The system key has changed!"), ErrorCodes::AuthenticationFailure);
+	}
+
 	cpr->Initialize(false, kpc);
 	// copy from secure-vector to cipher-text buffer
 	std::vector<uint8_t> cpt = SecureUnlock(State->State);
-- 
2.43.0


From ce5803b6caeb8b42a0c678edd53c768179dfbd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 37/78] fix: MemoryPool takes one block per allocation, is
 locked for its callers, resets its list and always has room to take a block
 back

---
 CEX/MemoryPool.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index c3801bc..dfac86e 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -13,9 +13,11 @@ public:
 
 	uint8_t AlignBit;
 	std::vector<std::pair<size_t, size_t>> FreeList;
+	size_t Live;
 	size_t MaxAlloc;
 	uint8_t* MemPool;
 	size_t MinAlloc;
+	std::mutex Mutex;
 	size_t PageSize;
 	size_t PoolSize;
 
@@ -25,6 +27,7 @@ public:
 			AlignBit : 
 			throw CryptoException(std::string("MemoryPool"), std::string("Constructor"), std::string("MemoryPool invalid align bit!"), ErrorCodes::InvalidParam)),
 		FreeList(0),
+		Live(0),
 		MaxAlloc(MaxAlloc),
 		MemPool((Pool != nullptr) ? 
 			Pool : 
@@ -41,6 +44,7 @@ public:
 	{
 		AlignBit = 0;
 		FreeList.clear();
+		Live = 0;
 		MaxAlloc = 0;
 		MemPool = nullptr;
 		MinAlloc = 0;
@@ -68,15 +72,17 @@ void* MemoryPool::Allocate(size_t Length)
 {
 	std::vector<std::pair<size_t, size_t>>::iterator best;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
-	std::mutex m;
 	void* poolr;
 
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
 	poolr = nullptr;
 
 	if (Length <= m_poolState->PoolSize && Length >= m_poolState->MinAlloc && Length <= m_poolState->MaxAlloc)
 	{
 		const size_t ALNBIT = static_cast<size_t>(1) << m_poolState->AlignBit;
+		// the list can not hold more than one entry for each live block, and the one after the last; with that space
+		// set aside, neither splitting an entry nor the return of a block can fail
+		m_poolState->FreeList.reserve(m_poolState->Live + 2);
 		best = m_poolState->FreeList.end();
 
 		for (itrl = m_poolState->FreeList.begin(); itrl != m_poolState->FreeList.end(); ++itrl)
@@ -95,6 +101,9 @@ void* MemoryPool::Allocate(size_t Length)
 				}
 
 				poolr = m_poolState->MemPool + FSTOFT;
+				++m_poolState->Live;
+
+				return poolr;
 			}
 
 			if (((best == m_poolState->FreeList.end()) || (best->second > itrl->second)) && (itrl->second >= (Length + PadSize(itrl->first, ALNBIT))))
@@ -133,6 +142,7 @@ void* MemoryPool::Allocate(size_t Length)
 			}
 
 			poolr = m_poolState->MemPool + FSTOFT + ALNPAD;
+			++m_poolState->Live;
 		}
 	}
 
@@ -141,7 +151,10 @@ void* MemoryPool::Allocate(size_t Length)
 
 void MemoryPool::Reset()
 {
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
+	m_poolState->FreeList.clear();
+	m_poolState->Live = 0;
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
 }
 
@@ -150,14 +163,19 @@ bool MemoryPool::Deallocate(void* Pointer, size_t Length)
 	bool status;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
 	std::vector<std::pair<size_t, size_t>>::iterator prev;
-	std::mutex m;
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->Mutex);
 
 	status = false;
 
 	if (InPool(m_poolState->MemPool, m_poolState->PoolSize, Pointer, Length))
 	{
 		status = true;
+
+		if (m_poolState->Live != 0)
+		{
+			--m_poolState->Live;
+		}
+
 		Clear(Pointer, 0, Length);
 
 		const size_t FSTPTR = static_cast<uint8_t*>(Pointer) - m_poolState->MemPool;
-- 
2.43.0


From 1102c0bec6fa2c09e4722a7e30cd1c17c0642671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 38/78] fix: SecureExtract into a secure-vector copies the
 elements asked for

---
 CEX/SecureVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index b25a317..aaffffb 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -202,7 +202,7 @@ inline static void SecureExtract(const SecureVector<T> &Input, size_t InOffset,
 		Output.resize(OTPSZE);
 	}
 
-	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Input.size() * sizeof(T));
+	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Elements * sizeof(T));
 }
 
 /// <summary>
-- 
2.43.0


From 36df936cd9f2e7e7cc60c8e22e7c4b34a0affa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 39/78] fix: KPA and SCBKDF erase their whole state before it
 is released

---
 CEX/KPA.cpp    | 4 ++--
 CEX/SCBKDF.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 495767a..f6dd54c 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -72,7 +72,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
@@ -92,7 +92,7 @@ public:
 
 		for (size_t i = 0; i < State.size(); ++i)
 		{
-			MemoryTools::Clear(State[i], 0, State[i].size());
+			MemoryTools::Clear(State[i], 0, State[i].size() * sizeof(uint64_t));
 		}
 
 		MemoryTools::Clear(Buffer, 0, Buffer.size());
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index 00fc59f..f0a93aa 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -13,7 +13,7 @@ class SCBKDF::ScbkdfState
 public:
 
 	std::array<uint64_t, Keccak::KECCAK_STATE_SIZE> State = { 0 };
-	std::vector<uint8_t> Cache;
+	SecureVector<uint8_t> Cache;
 	size_t CpuCost;
 	size_t MemoryCost;
 	size_t Rate;
-- 
2.43.0


From 4f73f6b15a8b7a3b7d13b7a5963b789b447c540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 40/78] fix: key containers and SecureStream erase the plain
 copies they make on every path

---
 CEX/AsymmetricKey.cpp       |  2 +-
 CEX/AsymmetricSecureKey.cpp | 12 +++++++++---
 CEX/SecureStream.cpp        | 24 ++++++++++++++----------
 CEX/SecureVector.h          | 32 ++++++++++++++++++++++++++++++++
 CEX/SymmetricKey.cpp        | 18 ++++++++++--------
 CEX/SymmetricSecureKey.cpp  | 18 +++++++++++-------
 6 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4c6d63d..79ca2c2 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -154,7 +154,7 @@ SecureVector<uint8_t> AsymmetricKey::Serialize(AsymmetricKey &KeyParams)
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.KeyClass()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.Parameters()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.PrimitiveType()), tmpr);
-	ArrayTools::AppendVector(KeyParams.Polynomial(), tmpr);
+	ArrayTools::AppendVector(KeyParams.SecurePolynomial(), tmpr);
 
 	return tmpr;
 }
diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 17ac547..2b65b26 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -191,12 +191,14 @@ AsymmetricKey* AsymmetricSecureKey::DeSerialize(SecureVector<uint8_t> &KeyStream
 
 SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyParams)
 {
+	SecureVector<uint8_t> tmpp(KeyParams.m_secureState->Length);
 	SecureVector<uint8_t> tmpr(0);
 
+	KeyParams.SecurePolynomial(tmpp);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.KeyClass()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.Parameters()), tmpr);
 	ArrayTools::AppendValue(static_cast<uint8_t>(KeyParams.PrimitiveType()), tmpr);
-	ArrayTools::AppendVector(KeyParams.Polynomial(), tmpr);
+	ArrayTools::AppendVector(tmpp, tmpr);
 
 	return tmpr;
 }
@@ -212,6 +214,9 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
 	std::vector<uint8_t> cpt(State->Polynomial.size());
+	ScopedErase<std::vector<uint8_t>> erst(tmpt);
+	ScopedErase<std::vector<uint8_t>> ersk(tmpk);
+	ScopedErase<std::vector<uint8_t>> ersn(tmpn);
 
 	// transfer from the secure-vector to a working state
 	tmpt = SecureUnlockClear(State->Polynomial);
@@ -251,6 +256,9 @@ void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &Sta
 	std::vector<uint8_t> tmpt(State->Polynomial.size());
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
+	ScopedErase<std::vector<uint8_t>> erst(tmpt);
+	ScopedErase<std::vector<uint8_t>> ersk(tmpk);
+	ScopedErase<std::vector<uint8_t>> ersn(tmpn);
 
 	// assemble the cipher key
 	GetSystemKey(State->Policy, State->Salt, seed);
@@ -272,8 +280,6 @@ void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &Sta
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, 0, Output, 0, Length);
-	// erase the temp state
-	MemoryTools::Clear(tmpt, 0, tmpt.size());
 }
 
 IStreamCipher* AsymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 0f19792..1c73bb1 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -51,16 +51,19 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	m_isDestroyed(false),
 	m_keyCheck(0),
 	m_keySalt(0),
-	m_streamData(Data),
+	m_streamData(0),
 	m_streamPosition(0)
 {
+	std::vector<uint8_t> state(Data);
+	ScopedErase<std::vector<uint8_t>> erss(state);
+
 	if (KeySalt != 0)
 	{
 		m_keySalt.resize(sizeof(uint64_t));
 		MemoryTools::CopyFromValue(KeySalt, m_keySalt, 0, sizeof(uint64_t));
 	}
 
-	m_streamData = Transform(m_streamData.size());
+	Store(state);
 }
 
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
@@ -73,8 +76,10 @@ SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Len
 {
 	CEXASSERT(Length <= Data.size() - Offset, "Length is longer than the array size");
 
-	m_streamData.resize(Length);
-	MemoryTools::Copy(Data, Offset, m_streamData, 0, Length);
+	std::vector<uint8_t> state(Length);
+	ScopedErase<std::vector<uint8_t>> erss(state);
+
+	MemoryTools::Copy(Data, Offset, state, 0, Length);
 
 	if (KeySalt != 0)
 	{
@@ -82,7 +87,7 @@ SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Len
 		MemoryTools::CopyFromValue(KeySalt, m_keySalt, 0, sizeof(uint64_t));
 	}
 
-	m_streamData = Transform(m_streamData.size());
+	Store(state);
 }
 
 SecureStream::~SecureStream()
@@ -138,9 +143,9 @@ void SecureStream::Close()
 void SecureStream::CopyTo(IByteStream* Destination)
 {
 	std::vector<uint8_t> state = Transform(m_streamData.size());
+	ScopedErase<std::vector<uint8_t>> erss(state);
 
 	Destination->Write(state, 0, state.size());
-	IntegerTools::Clear(state);
 }
 
 void SecureStream::Destroy()
@@ -317,6 +322,9 @@ std::vector<uint8_t> SecureStream::Transform(size_t Length)
 		std::vector<uint8_t> seed = GetSystemKey();
 		std::vector<uint8_t> key(32);
 		std::vector<uint8_t> iv(16);
+		ScopedErase<std::vector<uint8_t>> erss(seed);
+		ScopedErase<std::vector<uint8_t>> ersk(key);
+		ScopedErase<std::vector<uint8_t>> ersi(iv);
 
 		MemoryTools::Copy(seed, 0, key, 0, key.size());
 		MemoryTools::Copy(seed, key.size(), iv, 0, iv.size());
@@ -339,10 +347,6 @@ std::vector<uint8_t> SecureStream::Transform(size_t Length)
 		Cipher::Block::Mode::CTR cpr(Enumeration::BlockCiphers::AES);
 		cpr.Initialize(true, kp);
 		cpr.Transform(m_streamData, 0, state, 0, m_streamData.size());
-
-		IntegerTools::Clear(seed);
-		IntegerTools::Clear(key);
-		IntegerTools::Clear(iv);
 	}
 
 	return state;
diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index aaffffb..de4c6a0 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -483,5 +483,37 @@ inline static std::vector<T> SecureUnlockClear(SecureVector<T> &Input)
 }
 CEX_OPTIMIZE_RESUME
 
+/// <summary>
+/// Erases a vector when it goes out of scope, on every path
+/// </summary>
+template<typename Array>
+class ScopedErase
+{
+private:
+
+	Array &m_array;
+
+public:
+
+	/// <summary>
+	/// Constructor: the vector must outlive this instance
+	/// </summary>
+	///
+	/// <param name="Input">The vector to erase</param>
+	explicit ScopedErase(Array &Input)
+		:
+		m_array(Input)
+	{
+	}
+
+	ScopedErase(const ScopedErase&) = delete;
+	ScopedErase& operator=(const ScopedErase&) = delete;
+
+	~ScopedErase()
+	{
+		MemoryTools::Clear(m_array, 0, m_array.size() * sizeof(typename Array::value_type));
+	}
+};
+
 NAMESPACE_ROOTEND
 #endif
diff --git a/CEX/SymmetricKey.cpp b/CEX/SymmetricKey.cpp
index 42ede5a..10230a1 100644
--- a/CEX/SymmetricKey.cpp
+++ b/CEX/SymmetricKey.cpp
@@ -197,7 +197,7 @@ const SecureVector<uint8_t> SymmetricKey::SecureIV()
 
 SymmetricKey* SymmetricKey::Clone()
 {
-	return new SymmetricKey(Key(), IV(), Info());
+	return new SymmetricKey(m_keyState->Key, m_keyState->IV, m_keyState->Info);
 }
 
 void SymmetricKey::Reset()
@@ -256,15 +256,17 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 	uint16_t nlen;
 	uint16_t ilen;
 
+	SymmetricKeySize &ksc = KeyParams.KeySizes();
+
 	// the parts are stored with 16-bit lengths
-	if (KeyParams.Key().size() > UINT16_MAX || KeyParams.IV().size() > UINT16_MAX || KeyParams.Info().size() > UINT16_MAX)
+	if (ksc.KeySize() > UINT16_MAX || ksc.IVSize() > UINT16_MAX || ksc.InfoSize() > UINT16_MAX)
 	{
 		throw CryptoSymmetricException(std::string("SymmetricKey"), std::string("Serialize"), std::string("The key is too large to be serialized!"), ErrorCodes::InvalidSize);
 	}
 
-	klen = static_cast<uint16_t>(KeyParams.Key().size());
-	nlen = static_cast<uint16_t>(KeyParams.IV().size());
-	ilen = static_cast<uint16_t>(KeyParams.Info().size());
+	klen = static_cast<uint16_t>(ksc.KeySize());
+	nlen = static_cast<uint16_t>(ksc.IVSize());
+	ilen = static_cast<uint16_t>(ksc.InfoSize());
 
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(klen), tmpr);
 	ArrayTools::AppendVector(IntegerTools::Le16ToBytes<SecureVector<uint8_t>>(nlen), tmpr);
@@ -272,15 +274,15 @@ SecureVector<uint8_t> SymmetricKey::Serialize(SymmetricKey &KeyParams)
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index c4e9ea4..e1c9701 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -401,10 +401,10 @@ SymmetricSecureKey* SymmetricSecureKey::Clone()
 	if (m_secureState->Salt.size() == 0)
 	{
 		// a key created without a policy and salt
-		return new SymmetricSecureKey(Key(), IV(), Info());
+		return new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo());
 	}
 
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	return new SymmetricSecureKey(SecureKey(), SecureIV(), SecureInfo(), m_secureState->Policy, m_secureState->Salt);
 }
 
 void SymmetricSecureKey::Reset()
@@ -444,15 +444,15 @@ SecureVector<uint8_t> SymmetricSecureKey::Serialize(SymmetricSecureKey &KeyParam
 
 	if (klen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Key(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureKey(), tmpr);
 	}
 	if (nlen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.IV(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureIV(), tmpr);
 	}
 	if (ilen > 0)
 	{
-		ArrayTools::AppendVector(KeyParams.Info(), tmpr);
+		ArrayTools::AppendVector(KeyParams.SecureInfo(), tmpr);
 	}
 
 	return tmpr;
@@ -469,6 +469,9 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
 	std::vector<uint8_t> cpt(State->State.size());
+	ScopedErase<std::vector<uint8_t>> erst(tmpt);
+	ScopedErase<std::vector<uint8_t>> ersk(tmpk);
+	ScopedErase<std::vector<uint8_t>> ersn(tmpn);
 
 	// transfer from the secure-vector to a working state
 	tmpt = SecureUnlockClear(State->State);
@@ -508,6 +511,9 @@ void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t
 	std::vector<uint8_t> tmpt(State->State.size());
 	std::vector<uint8_t> tmpk(ksc.KeySize());
 	std::vector<uint8_t> tmpn(ksc.IVSize());
+	ScopedErase<std::vector<uint8_t>> erst(tmpt);
+	ScopedErase<std::vector<uint8_t>> ersk(tmpk);
+	ScopedErase<std::vector<uint8_t>> ersn(tmpn);
 
 	// assemble the cipher key
 	GetSystemKey(State->Policy, State->Salt, seed);
@@ -529,8 +535,6 @@ void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t
 	MemoryTools::Clear(cpt, 0, cpt.size());
 	// copy the decrypted key to output
 	MemoryTools::Copy(tmpt, StateOffset, Output, 0, Length);
-	// erase the temp state
-	MemoryTools::Clear(tmpt, 0, tmpt.size());
 }
 
 IStreamCipher* SymmetricSecureKey::GetStreamCipher(SecurityPolicy Policy)
-- 
2.43.0


From f80ad0ff9ee14d4961783698de1810d572aaae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 41/78] fix: ThreadPool compiles, runs every accepted task
 once, honours its maximum and ends its waits

---
 CEX/ThreadPool.h | 194 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 133 insertions(+), 61 deletions(-)

diff --git a/CEX/ThreadPool.h b/CEX/ThreadPool.h
index f81c32e..340a3f4 100644
--- a/CEX/ThreadPool.h
+++ b/CEX/ThreadPool.h
@@ -2,8 +2,8 @@
 #define CEX_THREADPOOL_H
 
 #include "CexDomain.h"
-#include <atomic>
 #include <condition_variable>
+#include <exception>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -22,14 +22,15 @@ private:
 
     std::vector<std::thread> m_threadPool;
     std::list<std::function<void(void)>> m_threadQueue;
-    std::atomic_size_t      m_jobsRemaining;
-    std::atomic_size_t      m_maxThreads;
-    std::atomic_bool        m_jobsAbort;
-    std::atomic_bool        m_jobsFinished;
+    // everything below is guarded by the queue mutex
+    size_t                  m_jobsRemaining;
+    size_t                  m_maxThreads;
+    size_t                  m_activeThreads;
+    bool                    m_jobsAbort;
+    std::exception_ptr      m_taskError;
     std::condition_variable m_jobsAvailable;
     std::condition_variable m_waitCondition;
     std::mutex              m_queueMutex;
-    std::mutex              m_waitMutex;
 
 public:
 
@@ -42,13 +43,14 @@ public:
     ThreadPool(size_t MaximumThreads = DEF_MAXTHREADS)
         : 
         m_threadPool(0),
-        m_threadQueue(0),
+        m_threadQueue(),
         m_jobsRemaining(0),
         m_maxThreads(MaximumThreads > 1 && MaximumThreads <= DEF_MAXTHREADS ?
             MaximumThreads : 
             DEF_MAXTHREADS),
+        m_activeThreads(0),
         m_jobsAbort(false), 
-        m_jobsFinished(false)
+        m_taskError(nullptr)
     {
     }
 
@@ -57,7 +59,14 @@ public:
     /// </summary>
     ~ThreadPool() 
     {
-        JoinAll();
+        try
+        {
+            JoinAll();
+        }
+        catch (...)
+        {
+            // the failure of a task that nobody waited for
+        }
     }
 
     /// <summary>
@@ -67,7 +76,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        return m_threadPool.size();
+        return m_activeThreads;
     }
 
     /// <summary>
@@ -87,7 +96,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        return DEF_MAXTHREADS;
+        return m_maxThreads;
     }
 
     /// <summary>
@@ -99,12 +108,27 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        m_threadQueue.emplace_back(Task);
+
+        try
         {
-            m_threadPool.push_back(std::thread([this] { this->Task(); }));
+            if (m_activeThreads < m_maxThreads)
+            {
+                m_threadPool.reserve(m_threadPool.size() + 1);
+                m_threadPool.push_back(std::thread([this] { this->Task(); }));
+                ++m_activeThreads;
+            }
+        }
+        catch (...)
+        {
+            // the task is refused when there is no thread to run it
+            if (m_activeThreads == 0)
+            {
+                m_threadQueue.pop_back();
+                throw;
+            }
         }
 
-        m_threadQueue.emplace_back(Task);
         ++m_jobsRemaining;
         m_jobsAvailable.notify_one();
     }
@@ -118,14 +142,27 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        m_threadQueue.emplace_back(Task);
+
+        try
         {
-            std::thread thd([this] { this->Task(); });
-            thd.detach();
-            m_threadPool.push_back(thd);
+            if (m_activeThreads < m_maxThreads)
+            {
+                std::thread thd([this] { this->Task(); });
+                thd.detach();
+                ++m_activeThreads;
+            }
+        }
+        catch (...)
+        {
+            // the task is refused when there is no thread to run it
+            if (m_activeThreads == 0)
+            {
+                m_threadQueue.pop_back();
+                throw;
+            }
         }
 
-        m_threadQueue.emplace_back(Task);
         ++m_jobsRemaining;
         m_jobsAvailable.notify_one();
     }
@@ -137,27 +174,46 @@ public:
     /// <param name="WaitForAll">If true, waits for the thread queue to empty, else completes current jobs</param>
     void JoinAll(bool WaitForAll = true)
     {
-        if (!m_jobsFinished)
+        std::vector<std::thread> threads(0);
+        std::exception_ptr error;
+        std::unique_lock<std::mutex> lock(m_queueMutex);
+
+        if (WaitForAll)
         {
-            if (WaitForAll)
-            {
-                WaitAll();
-            }
+            m_waitCondition.wait(lock, [this] { return m_jobsRemaining == 0; });
+        }
 
-            // wake up any thread that's waiting for a new job
-            m_jobsAbort = true;
+        // the threads leave when they find no more jobs
+        m_jobsAbort = true;
+        m_jobsRemaining -= m_threadQueue.size();
+        m_threadQueue.clear();
+        m_jobsAvailable.notify_all();
 
-            m_jobsAvailable.notify_all();
+        do
+        {
+            threads.swap(m_threadPool);
+            lock.unlock();
 
-            for (auto &x : m_threadPool)
+            for (auto &x : threads)
             {
-                if (x.joinable())
-                {
-                    x.join();
-                }
+                x.join();
             }
 
-            m_jobsFinished = true;
+            threads.clear();
+            lock.lock();
+            m_waitCondition.wait(lock, [this] { return m_activeThreads == 0; });
+        } 
+        while (m_threadPool.size() != 0);
+
+        // the pool can be used again
+        m_jobsAbort = false;
+        std::swap(error, m_taskError);
+        m_waitCondition.notify_all();
+        lock.unlock();
+
+        if (error != nullptr)
+        {
+            std::rethrow_exception(error);
         }
     }
 
@@ -166,11 +222,16 @@ public:
     /// </summary>
     void WaitAll()
     {
-        if (m_jobsRemaining > 0)
+        std::exception_ptr error;
+        std::unique_lock<std::mutex> lock(m_queueMutex);
+
+        m_waitCondition.wait(lock, [this] { return m_jobsRemaining == 0; });
+        std::swap(error, m_taskError);
+        lock.unlock();
+
+        if (error != nullptr)
         {
-            std::unique_lock<std::mutex> lock(m_waitMutex);
-            m_waitCondition.wait(lock, [this] { return this->m_jobsRemaining == 0; });
-            lock.unlock();
+            std::rethrow_exception(error);
         }
     }
 
@@ -178,36 +239,47 @@ private:
 
     void Task()
     {
-        while (!m_jobsAbort)
+        std::unique_lock<std::mutex> lock(m_queueMutex);
+
+        while (true)
         {
-            NextJob()();
+            // wait for a job if we don't have any.
+            m_jobsAvailable.wait(lock, [this]() ->bool { return m_threadQueue.size() != 0 || m_jobsAbort; });
 
-            --m_jobsRemaining;
-            m_waitCondition.notify_one();
-        }
-    }
+            if (m_threadQueue.size() == 0)
+            {
+                --m_activeThreads;
+                m_waitCondition.notify_all();
+                break;
+            }
 
-    std::function<void(void)> NextJob()
-    {
-        std::unique_lock<std::mutex> lock(m_queueMutex);
-        std::function<void(void)> func;
+            // get job from the thread queue
+            std::list<std::function<void(void)>> job;
+            std::exception_ptr error;
 
-        // wait for a job if we don't have any.
-        m_jobsAvailable.wait(lock, [this]() ->bool { return m_threadQueue.size() || m_jobsAbort; });
+            job.splice(job.begin(), m_threadQueue, m_threadQueue.begin());
+            lock.unlock();
 
-        // get job from the thread queue
-        if (!m_jobsAbort)
-        {
-            func = m_threadQueue.front();
-            m_threadQueue.pop_front();
-        }
-        else
-        {
-            func = []{};
-            ++m_jobsRemaining;
-        }
+            try
+            {
+                job.front()();
+            }
+            catch (...)
+            {
+                error = std::current_exception();
+            }
+
+            job.clear();
+            lock.lock();
 
-        return func;
+            if (error != nullptr && m_taskError == nullptr)
+            {
+                m_taskError = error;
+            }
+
+            --m_jobsRemaining;
+            m_waitCondition.notify_all();
+        }
     }
 };
 
-- 
2.43.0


From d66bb8da9b9bea935fbc288c509e6aa26bbd3eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 42/78] fix: event assignment neither deadlocks nor empties
 itself, an asynchronous call owns its handlers

---
 CEX/EventHandler.h | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/CEX/EventHandler.h b/CEX/EventHandler.h
index 52cb276..4a4d88c 100644
--- a/CEX/EventHandler.h
+++ b/CEX/EventHandler.h
@@ -53,7 +53,7 @@ public:
 	event_handler& operator=(event_handler&& src)
 	{
 		std::swap(m_handlerFunc, src.m_handlerFunc);
-		m_handlerId = src.m_handlerId;
+		std::swap(m_handlerId, src.m_handlerId);
 
 		return *this;
 	}
@@ -120,10 +120,13 @@ public:
 	// copy assignment operator
 	event& operator=(const event& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			handler_collection_type handlersCopy = src.get_handlers_copy();
+			std::lock_guard<std::mutex> lock(m_handlersLocker);
 
-		m_handlers = src.m_handlers;
+			m_handlers.swap(handlersCopy);
+		}
 
 		return *this;
 	}
@@ -131,10 +134,14 @@ public:
 	// move assignment operator
 	event& operator=(event&& src)
 	{
-		std::lock_guard<std::mutex> lock(m_handlersLocker);
-		std::lock_guard<std::mutex> lock2(src.m_handlersLocker);
+		if (this != &src)
+		{
+			std::unique_lock<std::mutex> lock(m_handlersLocker, std::defer_lock);
+			std::unique_lock<std::mutex> lock2(src.m_handlersLocker, std::defer_lock);
+			std::lock(lock, lock2);
 
-		std::swap(m_handlers, src.m_handlers);
+			std::swap(m_handlers, src.m_handlers);
+		}
 
 		return *this;
 	}
@@ -197,7 +204,16 @@ public:
 
 	std::future<void> call_async(Args... params) const
 	{
-		return std::async(std::launch::async, [this](Args... asyncParams) { call(asyncParams...); }, params...);
+		// the event may be gone when the thread starts
+		handler_collection_type handlersCopy = get_handlers_copy();
+
+		return std::async(std::launch::async, [handlersCopy](Args... asyncParams)
+		{
+			for (const auto& handler : handlersCopy)
+			{
+				handler(asyncParams...);
+			}
+		}, params...);
 	}
 
 	inline void operator()(Args... params) const
-- 
2.43.0


From 6c020e34eb0bb91670fe56919bde7fce15181c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:52 +0000
Subject: [PATCH 43/78] fix: delegates may subscribe and unsubscribe while an
 event is delivered

---
 CEX/Event.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/CEX/Event.h b/CEX/Event.h
index 3a482b7..6a80727 100644
--- a/CEX/Event.h
+++ b/CEX/Event.h
@@ -3,6 +3,7 @@
 
 #include "CexDomain.h"
 #include "Delegate.h"
+#include <algorithm>
 
 NAMESPACE_ROUTING
 
@@ -62,7 +63,7 @@ public:
 	inline void operator+=(Delegate<T>* delegate)
 	{
 		// an object can only subscribe once
-		if (find(m_delegates.begin(), m_delegates.end(), delegate) == m_delegates.end())
+		if (std::find(m_delegates.begin(), m_delegates.end(), delegate) == m_delegates.end())
 		{
 			m_delegates.push_back(delegate);
 		}
@@ -96,11 +97,15 @@ public:
 	/// </summary>
 	inline void operator()(T param)
 	{
-		typedef typename std::vector<Delegate<T>*>::iterator iter;
+		// a delegate may subscribe or unsubscribe while it is called
+		const std::vector<Delegate<T>*> delegates(m_delegates);
 
-		for (iter i = m_delegates.begin(); i != m_delegates.end(); ++i)
+		for (size_t i = 0; i < delegates.size(); ++i)
 		{
-			(*i)->operator()(param);
+			if (std::find(m_delegates.begin(), m_delegates.end(), delegates[i]) != m_delegates.end())
+			{
+				delegates[i]->operator()(param);
+			}
 		}
 	}
 };
-- 
2.43.0


From 44cf101470bb6066fe1effedcc5bb5749f278322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:28 +0000
Subject: [PATCH 44/78] fix: XMSS signs with the index of the private key and
 stores the advanced index in that key

---
 CEX/AsymmetricKey.cpp | 10 ++++++++++
 CEX/AsymmetricKey.h   |  9 +++++++++
 CEX/XMSS.cpp          |  8 +++++++-
 CEX/XMSS.h            |  1 +
 CEX/XmssCore.cpp      | 26 +++++++++++++++++++++-----
 CEX/XmssCore.h        |  2 +-
 6 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 79ca2c2..38c0394 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -129,6 +129,16 @@ void AsymmetricKey::Reset()
 	m_keyState->Reset();
 }
 
+void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
+{
+	if (Polynomial.size() != m_keyState->Polynomial.size())
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("Update"), std::string("The polynomial is not the size of this key!"), ErrorCodes::InvalidSize);
+	}
+
+	MemoryTools::Copy(Polynomial, 0, m_keyState->Polynomial, 0, Polynomial.size());
+}
+
 //~~~Static Functions~~~//
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
diff --git a/CEX/AsymmetricKey.h b/CEX/AsymmetricKey.h
index 4dbc263..90d40ad 100644
--- a/CEX/AsymmetricKey.h
+++ b/CEX/AsymmetricKey.h
@@ -109,6 +109,15 @@ public:
 	/// </summary>
 	void Reset() override;
 
+	/// <summary>
+	/// Replace the polynomial of a stateful key with a new state of the same size, ex. the XMSS private key after a signature
+	/// </summary>
+	/// 
+	/// <param name="Polynomial">The new polynomial; must be the same size as the current polynomial</param>
+	/// 
+	/// <exception cref="CryptoAsymmetricException">Thrown if the polynomial is not the same size as the current polynomial</exception>
+	void Update(const std::vector<uint8_t> &Polynomial);
+
 	//~~~Static Functions~~~//
 
 	/// <summary>
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5c0b00a..dc9019f 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -286,9 +286,15 @@ size_t XMSS::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Sig
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for signing!"), ErrorCodes::InvalidParam);
 	}
 
+	std::vector<uint8_t> sk = m_privateKey->Polynomial();
+	ScopedErase<std::vector<uint8_t>> esk(sk);
+	std::vector<uint8_t> sig(0);
 	size_t slen;
 
-	slen = XMSSCore::Sign(Signature, Message, m_privateKey->Polynomial(), m_xmssState->Parameters);
+	slen = XMSSCore::Sign(sig, Message, sk, m_xmssState->Parameters);
+	// the one-time key is spent: the advanced index is stored in the private key before the signature is released
+	m_privateKey->Update(sk);
+	Signature.swap(sig);
 
 	return slen;
 }
diff --git a/CEX/XMSS.h b/CEX/XMSS.h
index 4eacbdb..5a8f4af 100644
--- a/CEX/XMSS.h
+++ b/CEX/XMSS.h
@@ -85,6 +85,7 @@ using Enumeration::XmssParameters;
 /// <item><description>The primary Prng is set through the constructor, as either an prng type-name (default BCR), which instantiates the function internally, or a pointer to a perisitant external instance of a Prng</description></item>
 /// <item><description>The signature schemes operational mode (signing/verifying) is determined by the IAsymmetricKey key-type used to Initialize the cipher; the Public key is used for verification, and use the Private for signing a message.</description></item>
 /// <item><description>Use the Generate function to create a public/private key-pair, and the Sign function to sign a message</description></item>
+/// <item><description>The private key is stateful: every call to Sign uses the next one-time key, and stores the advanced index in the AsymmetricKey; save that key again before the signature is released</description></item>
 /// <item><description>The message-signature is tested using the Verify function, which checks the signature, populates the message array, and returns false on authentication failure</description></item>
 /// </list>
 /// 
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..37660df 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1,4 +1,5 @@
 #include "XMSSCore.h"
+#include "CryptoAsymmetricException.h"
 #include "IntegerTools.h"
 #include "Keccak.h"
 #include "MemoryTools.h"
@@ -7,6 +8,8 @@
 
 NAMESPACE_XMSS
 
+using Exception::CryptoAsymmetricException;
+using Enumeration::ErrorCodes;
 using Tools::IntegerTools;
 using Digest::Keccak;
 using Tools::MemoryTools;
@@ -1319,8 +1322,16 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	SigLength = Params.SignatureSize + MsgLength;
 
 	// read and use the current index from the secret key
-	idx = BytesToUll(Signature, Params.IndexSize);
 	MemoryTools::Copy(SecretKey, skoft, Signature, 0, Params.IndexSize);
+	idx = BytesToUll(Signature, Params.IndexSize);
+
+	// a leaf can be used once: when every leaf has been used the key can not sign,
+	// and the last leaf is not used if the key can not store the index that follows it
+	if ((idx >> Params.FullHeight) != 0 || (Params.IndexSize < sizeof(idx) && ((idx + 1) >> (Params.IndexSize * 8)) != 0))
+	{
+		SigLength = 0;
+		return -2;
+	}
 
 	// Note: the secret key can be updated here
 	// increment the index in the secret key
@@ -1451,27 +1462,32 @@ void XMSSCore::Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &P
 	}
 }
 
-size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
 {
 	size_t smlen(0);
 	uint32_t oid;
+	int32_t res;
 
 	oid = XMSSUtils::ToOid(Parameters);
-	std::vector<uint8_t> sk2 = PrivateKey;
 
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssSign(sk2, Signature, smlen, Message, Message.size());
+		res = XmssSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 	else
 	{
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssMtSign(sk2, Signature, smlen, Message, Message.size());
+		res = XmssMtSign(PrivateKey, Signature, smlen, Message, Message.size());
+	}
+
+	if (res == -2)
+	{
+		throw CryptoAsymmetricException(std::string("XMSS"), std::string("Sign"), std::string("Every signature of this private key has been used!"), ErrorCodes::MaxExceeded);
 	}
 
 	return smlen;
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 888e6d1..844b7f9 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -180,7 +180,7 @@ public:
 
 	static void Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &PrivateKey, std::unique_ptr<Prng::IPrng> &Rng, XmssParameters Parameters);
 
-	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
 
 	static bool Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, XmssParameters Parameters);
 };
-- 
2.43.0


From ade61da8f8cee961fe857f3da18fe0da2e71fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:34 +0000
Subject: [PATCH 45/78] fix: XMSS checks the sizes of keys and signatures

---
 CEX/XMSS.cpp     |  8 ++++++++
 CEX/XmssCore.cpp | 29 +++++++++++++++++++++++++++++
 CEX/XmssCore.h   |  2 ++
 3 files changed, 39 insertions(+)

diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index dc9019f..f206563 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -253,6 +253,14 @@ const void XMSS::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const XmssParameters PARAMS = static_cast<XmssParameters>(Key->Parameters());
+
+	if (XMSSUtils::ToOid(PARAMS) == 0 || Key->SecurePolynomial().size() !=
+		(Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? XMSSCore::GetPublicKeySize(PARAMS) : XMSSCore::GetPrivateKeySize(PARAMS)))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 37660df..f8a7bcc 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1372,6 +1372,21 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	return res;
 }
 
+uint32_t XMSSCore::KeyOid(const std::vector<uint8_t> &Key)
+{
+	uint32_t oid;
+	size_t i;
+
+	oid = 0;
+
+	for (i = 0; i < XMSS_OID_LEN; ++i)
+	{
+		oid |= static_cast<uint32_t>(Key[XMSS_OID_LEN - i - 1]) << (i * 8);
+	}
+
+	return oid;
+}
+
 size_t XMSSCore::GetPublicKeySize(XmssParameters Parameters)
 {
 	XmssParams params;
@@ -1470,6 +1485,13 @@ size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t
 
 	oid = XMSSUtils::ToOid(Parameters);
 
+	// the arrays are sized by the parameter set, so the key must belong to it
+	if (KeyOid(PrivateKey) != oid)
+	{
+		Signature.clear();
+		return 0;
+	}
+
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
@@ -1504,6 +1526,13 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 	res = 0;
 	oid = XMSSUtils::ToOid(Parameters);
 
+	// the arrays are sized by the parameter set, so the key must belong to it
+	if (KeyOid(PublicKey) != oid || Signature.size() < GetSignatureSize(Parameters))
+	{
+		Message.clear();
+		return false;
+	}
+
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 844b7f9..5a508a4 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -170,6 +170,8 @@ private:
 
 	static int32_t XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t> &SecretKey, std::vector<uint8_t> &Signature, size_t &SigLength, const std::vector<uint8_t> &Message, size_t MsgLength);
 
+	static uint32_t KeyOid(const std::vector<uint8_t> &Key);
+
 public:
 
 	static size_t GetPublicKeySize(XmssParameters Parameters);
-- 
2.43.0


From 1e602d92ad49ca271e2e6e732c0f481e31ba3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 46/78] fix: Kyber, McEliece and ECDH read the cSHAKE name from
 one string when a domain key is set

---
 CEX/ECDH.cpp     | 3 ++-
 CEX/Kyber.cpp    | 3 ++-
 CEX/McEliece.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index f7e573f..023ff5a 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -215,7 +215,8 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 1a46250..51769f3 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -443,7 +443,8 @@ void Kyber::Initialize(AsymmetricKey* Key)
 
 void Kyber::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 91d9b2f..f8c18a5 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -466,7 +466,8 @@ void McEliece::Initialize(AsymmetricKey* Key)
 
 void McEliece::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
-- 
2.43.0


From 8a39f01707b67fa7417070ad6327e58858a80d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 47/78] fix: Kyber, McEliece and ECDH check the sizes of keys
 and cipher-texts

---
 CEX/ECDH.cpp     |  5 +++++
 CEX/Kyber.cpp    | 38 ++++++++++++++++++++++++++++++++++++++
 CEX/McEliece.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 81 insertions(+)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 023ff5a..49e4ce1 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -159,6 +159,11 @@ const size_t ECDH::SharedSecretSize()
 
 bool ECDH::KeyExchange(AsymmetricKey* PublicKey, AsymmetricKey* PrivateKey, std::vector<uint8_t> &SharedSecret)
 {
+	if (PublicKey->SecurePolynomial().size() != EC25519::EC25519_PUBLICKEY_SIZE || PrivateKey->SecurePolynomial().size() != EC25519::EC25519_PRIVATEKEY_SIZE)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("KeyExchange"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	std::vector<uint8_t> sec(EC25519::EC25519_SECRET_SIZE);
 	bool res;
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 51769f3..0e1a699 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -255,6 +255,17 @@ const size_t Kyber::SharedSecretSize()
 
 bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
+	if (m_privateKey == nullptr || static_cast<KyberParameters>(m_privateKey->Parameters()) != m_kyberState->Parameters)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized with a private key!"), ErrorCodes::NotInitialized);
+	}
+
+	// the arithmetic reads a whole cipher-text; one of any other size can not be valid
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 
@@ -312,6 +323,11 @@ void Kyber::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t> &
 	CEXASSERT(m_kyberState->Initialized, "The cipher has not been initialized");
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
+	if (m_publicKey == nullptr || static_cast<KyberParameters>(m_publicKey->Parameters()) != m_kyberState->Parameters)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized with a public key!"), ErrorCodes::NotInitialized);
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE);
 
 	switch (m_kyberState->Parameters)
@@ -425,6 +441,28 @@ void Kyber::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const KyberParameters PARAMS = m_kyberState->Parameters;
+	size_t klen;
+
+	// the key must be the size its parameter set requires
+	m_kyberState->Parameters = static_cast<KyberParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (...)
+	{
+		m_kyberState->Parameters = PARAMS;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_kyberState->Parameters = PARAMS;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index f8c18a5..62b1376 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -260,6 +260,17 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 {
 	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
 
+	if (m_privateKey == nullptr || static_cast<McElieceParameters>(m_privateKey->Parameters()) != m_mpkcState->Parameters)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized with a private key!"), ErrorCodes::NotInitialized);
+	}
+
+	// the arithmetic reads a whole cipher-text; one of any other size can not be valid
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 	
@@ -314,6 +325,11 @@ void McEliece::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t
 	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
+	if (m_publicKey == nullptr || static_cast<McElieceParameters>(m_publicKey->Parameters()) != m_mpkcState->Parameters)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized with a public key!"), ErrorCodes::NotInitialized);
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE);
 
 	switch (m_mpkcState->Parameters)
@@ -448,6 +464,28 @@ void McEliece::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const McElieceParameters PARAMS = m_mpkcState->Parameters;
+	size_t klen;
+
+	// the key must be the size its parameter set requires
+	m_mpkcState->Parameters = static_cast<McElieceParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (...)
+	{
+		m_mpkcState->Parameters = PARAMS;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_mpkcState->Parameters = PARAMS;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::CipherPublicKey)
 	{
 		m_publicKey = Key;
-- 
2.43.0


From 2de63beab87d6a7567c3c2a5e65e0e4e4f99a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 48/78] fix: Kyber AVX2 does not read past the end of its
 buffers

---
 CEX/KyberBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/CEX/KyberBase.cpp b/CEX/KyberBase.cpp
index bf8a7d7..5d7571a 100644
--- a/CEX/KyberBase.cpp
+++ b/CEX/KyberBase.cpp
@@ -189,12 +189,14 @@ void KyberBase::PolyToMsg(std::vector<uint8_t> &Msg, const Poly &A)
 
 void KyberBase::PolyGetNoiseEta1(Poly &R, const std::vector<uint8_t> &Seed, size_t SOffset, uint8_t Nonce, uint32_t Eta1)
 {
-    std::vector<uint8_t> buf(Eta1 * KYBER_N / 4);
+    const size_t BUFLEN = Eta1 * KYBER_N / 4;
+    // Cbd3 reads 32 bytes from the last group of 24
+    std::vector<uint8_t> buf(BUFLEN + 8);
     std::vector<uint8_t> extkey(KYBER_SYMBYTES + 1);
 
     MemoryTools::Copy(Seed, SOffset, extkey, 0, KYBER_SYMBYTES);
     extkey[KYBER_SYMBYTES] = Nonce;
-    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, buf.size(), Keccak::KECCAK256_RATE_SIZE);
+    Keccak::XOFP1600(extkey, 0, extkey.size(), buf, 0, BUFLEN, Keccak::KECCAK256_RATE_SIZE);
 
     PolyCbdEta1(R, buf, Eta1);
 }
@@ -704,7 +706,8 @@ void KyberBase::PolyDecompressAvx2P160(Poly &R, const std::vector<uint8_t> &A, s
 
     for (size_t i = 0; i < R.coeffs.size() / 16; ++i)
     {
-        f = _mm256_broadcastsi128_si256(_mm_loadu_si128(reinterpret_cast<const __m128i*>(&pa[10 * i])));
+        // a group is 10 bytes, the last one is the end of the cipher-text
+        f = _mm256_broadcastsi128_si256(_mm_insert_epi16(_mm_loadl_epi64(reinterpret_cast<const __m128i*>(&pa[10 * i])), pa[(10 * i) + 8] | (pa[(10 * i) + 9] << 8), 4));
         f = _mm256_shuffle_epi8(f, shufbidx);
         f = _mm256_and_si256(f, mask);
         f = _mm256_mullo_epi16(f, shift);
@@ -1203,7 +1206,8 @@ void KyberBase::GenMatrix(std::vector<PolyVec> &A, const std::vector<uint8_t> &S
 
     for (i = 0; i < VLEN; ++i)
     {
-        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 2, 0x00);
+        // RejUniformAvx2 reads 16 bytes from the last group of 12
+        buf[i].resize(GEN_MATRIX_NBLOCKS * Keccak::KECCAK128_RATE_SIZE + 8, 0x00);
         extseed[i].resize(KYBER_SYMBYTES + 2, 0x00);
 
         if (i < K)
-- 
2.43.0


From 55bd2f0c7d28d4448c0bd8319166cd1cf824784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:48 +0000
Subject: [PATCH 49/78] fix: Dilithium, Sphincs+ and ECDSA check the sizes of
 keys and signatures

---
 CEX/Dilithium.cpp   | 29 +++++++++++++++++++++++++++++
 CEX/ECDSA.cpp       | 19 +++++++++++++++++++
 CEX/SphincsPlus.cpp | 29 +++++++++++++++++++++++++++++
 3 files changed, 77 insertions(+)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..acc718b 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -262,6 +262,28 @@ const void Dilithium::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const DilithiumParameters PARAMS = m_dilithiumState->Parameters;
+	size_t klen;
+
+	// the key must be the size its parameter set requires
+	m_dilithiumState->Parameters = static_cast<DilithiumParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (...)
+	{
+		m_dilithiumState->Parameters = PARAMS;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_dilithiumState->Parameters = PARAMS;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -341,6 +363,13 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	// a signature is never shorter than the scheme's signature size
+	if (Signature.size() < SignatureSize())
+	{
+		Message.clear();
+		return false;
+	}
+
 	switch (m_dilithiumState->Parameters)
 	{
 		case DilithiumParameters::DLTMS1P2544:
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..ca2dd93 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -192,6 +192,18 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	// the key must be of a known parameter set, and of the size the curve requires
+	if (static_cast<ECDSAParameters>(Key->Parameters()) != ECDSAParameters::ECDSAS1P25519K &&
+		static_cast<ECDSAParameters>(Key->Parameters()) != ECDSAParameters::ECDSAS2P25519S)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The ECDSA parameter set is invalid!"), ErrorCodes::InvalidParam);
+	}
+
+	if (Key->SecurePolynomial().size() != (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey ? PublicKeySize() : PrivateKeySize()))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -262,6 +274,13 @@ bool ECDSA::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_t> &
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	// a signature is never shorter than the scheme's signature size
+	if (Signature.size() < SignatureSize())
+	{
+		Message.clear();
+		return false;
+	}
+
 	res = ECDSABase::Verify(Message, Signature, m_publicKey->Polynomial(), m_rndDigest);
 
 	return res;
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index a77a0aa..abc1061 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -288,6 +288,28 @@ const void SphincsPlus::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	const SphincsPlusParameters PARAMS = m_sphincsState->Parameters;
+	size_t klen;
+
+	// the key must be the size its parameter set requires
+	m_sphincsState->Parameters = static_cast<SphincsPlusParameters>(Key->Parameters());
+
+	try
+	{
+		klen = (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey) ? PublicKeySize() : PrivateKeySize();
+	}
+	catch (...)
+	{
+		m_sphincsState->Parameters = PARAMS;
+		throw;
+	}
+
+	if (Key->SecurePolynomial().size() != klen)
+	{
+		m_sphincsState->Parameters = PARAMS;
+		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -371,6 +393,13 @@ bool SphincsPlus::Verify(const std::vector<uint8_t> &Signature, std::vector<uint
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	// a signature is never shorter than the scheme's signature size
+	if (Signature.size() < SignatureSize())
+	{
+		Message.clear();
+		return false;
+	}
+
 	bool res;
 
 	switch (m_sphincsState->Parameters)
-- 
2.43.0


From ff7c1edd454ed76538802e3a31c2aec9409b7b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:32 +0000
Subject: [PATCH 50/78] fix: McEliece key generation retries on a repeated
 permutation element and frees only the rows it allocated

---
 CEX/MPKCN4608T96.cpp  | 9 +++++++--
 CEX/MPKCN6688T128.cpp | 9 +++++++--
 CEX/MPKCN6960T119.cpp | 9 +++++++--
 CEX/MPKCN8192T128.cpp | 9 +++++++--
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/CEX/MPKCN4608T96.cpp b/CEX/MPKCN4608T96.cpp
index 91cc38e..759fd0f 100644
--- a/CEX/MPKCN4608T96.cpp
+++ b/CEX/MPKCN4608T96.cpp
@@ -302,6 +302,11 @@ int32_t MPKCN4608T96::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Perm
 	{
 		balc = true;
 
+		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
+		{
+			mat[i] = NULL;
+		}
+
 		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
 		{
 			mat[i] = (uint8_t*)MemoryTools::Malloc(MCELIECE_N4608T96_SYS_N / 8);
@@ -460,9 +465,9 @@ int32_t MPKCN4608T96::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Perm
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N4608T96_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N4608T96_PK_ROW_BYTES, MCELIECE_N4608T96_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6688T128.cpp b/CEX/MPKCN6688T128.cpp
index a01201b..692a42f 100644
--- a/CEX/MPKCN6688T128.cpp
+++ b/CEX/MPKCN6688T128.cpp
@@ -302,6 +302,11 @@ int32_t MPKCN6688T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 	{
 		balc = true;
 
+		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
+		{
+			mat[i] = NULL;
+		}
+
 		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
 		{
 			mat[i] = (uint8_t*)MemoryTools::Malloc(MCELIECE_N6688T128_SYS_N / 8);
@@ -460,9 +465,9 @@ int32_t MPKCN6688T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N6688T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N6688T128_PK_ROW_BYTES, MCELIECE_N6688T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6960T119.cpp b/CEX/MPKCN6960T119.cpp
index 64abac5..ff821ef 100644
--- a/CEX/MPKCN6960T119.cpp
+++ b/CEX/MPKCN6960T119.cpp
@@ -346,6 +346,11 @@ int32_t MPKCN6960T119::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 	{
 		balc = true;
 
+		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
+		{
+			mat[i] = NULL;
+		}
+
 		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
 		{
 			mat[i] = (uint8_t*)MemoryTools::Malloc(MCELIECE_N6960T119_SYS_N / 8);
@@ -513,9 +518,9 @@ int32_t MPKCN6960T119::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 					*pk_ptr = (mat[i][j] >> tail);
 					++pk_ptr;
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
diff --git a/CEX/MPKCN8192T128.cpp b/CEX/MPKCN8192T128.cpp
index 8d82b09..ab6a22c 100644
--- a/CEX/MPKCN8192T128.cpp
+++ b/CEX/MPKCN8192T128.cpp
@@ -277,6 +277,11 @@ int32_t MPKCN8192T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 	{
 		balc = true;
 
+		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
+		{
+			mat[i] = NULL;
+		}
+
 		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
 		{
 			mat[i] = (uint8_t*)MemoryTools::Malloc(MCELIECE_N8192T128_SYS_N / 8);
@@ -435,9 +440,9 @@ int32_t MPKCN8192T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N8192T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N8192T128_PK_ROW_BYTES, MCELIECE_N8192T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
-- 
2.43.0


From 492d62150e104263c1a819ed069d69d4377ef513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 51/78] fix: a MacStream whose last progress report failed asks
 for a new key

The code was already taken from the mac when the report threw, so the next
Compute without a key authenticated with a finished mac (C11).
---
 CEX/MacStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 948ce75..945df2b 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -238,8 +238,8 @@ std::vector<uint8_t> MacStream::Process(IByteStream* InStream, size_t Length)
 	// get the hash
 	tmph.resize(m_macEngine->TagSize());
 	m_macEngine->Finalize(tmph, 0);
-	m_streamState->Partial = false;
 	CalculateProgress(Length, plen);
+	m_streamState->Partial = false;
 
 	return tmph;
 }
@@ -274,8 +274,8 @@ std::vector<uint8_t> MacStream::Process(const std::vector<uint8_t> &Input, size_
 	// get the hash
 	tmph.resize(m_macEngine->TagSize());
 	m_macEngine->Finalize(tmph, 0);
-	m_streamState->Partial = false;
 	CalculateProgress(Length, plen);
+	m_streamState->Partial = false;
 
 	return tmph;
 }
-- 
2.43.0


From 039af5c93335af42e5b0acdc378e656313e1953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 52/78] fix: Sphincs+ masks the leaf index with 32 bits also
 where long has 64

With tree heights that are no multiple of eight (S1, S3) the index kept bits of
the next field on LP64 systems, and no signature verified (C14).
---
 CEX/SPXBase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..1855478 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -433,7 +433,7 @@ private:
 		Tree = BytesToUll(buf, FORSMSG, TREEBYTES);
 		Tree &= (~0ULL) >> (64 - TREEBITS);
 		LeafIndex = BytesToUll(buf, FORSMSG + TREEBYTES, LEAFBYTES);
-		LeafIndex &= (~0UL) >> (32 - LEAFBITS);
+		LeafIndex &= (~static_cast<uint32_t>(0)) >> (32 - LEAFBITS);
 	}
 
 	template<typename T>
-- 
2.43.0


From ad4a8f3e2f637dd48aae65d684b869b661aa376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 53/78] fix: ECDSA signs with the Keccak parameter set and
 hashes with the function of its key

ECDSAS1P25519K could be constructed, and its keys generated, but Sign threw;
an instance given a key of the other set went on with the hash it was built
with, so its signatures did not verify (C14).
---
 CEX/ECDSA.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index ca2dd93..2372f71 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -204,6 +204,13 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key size is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	// the hash function belongs to the parameter set of the key
+	if (static_cast<ECDSAParameters>(Key->Parameters()) != m_ecdsaState->Parameters)
+	{
+		m_rndDigest.reset(Helper::DigestFromName::GetInstance(static_cast<ECDSAParameters>(Key->Parameters()) == ECDSAParameters::ECDSAS1P25519K ?
+			Enumeration::Digests::SHA3512 : Enumeration::Digests::SHA2512));
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
@@ -242,6 +249,7 @@ size_t ECDSA::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Si
 
 	switch (m_ecdsaState->Parameters)
 	{
+		case ECDSAParameters::ECDSAS1P25519K:
 		case ECDSAParameters::ECDSAS2P25519S:
 		{
 			Signature.resize(SignatureSize() + Message.size());
-- 
2.43.0


From 2d8c6ff8355cac8ec59636d1b9b311a9d30ad289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:15 +0000
Subject: [PATCH 54/78] fix: ECDSA resets its hash before it signs, verifies or
 generates

A call that failed half way left its part of the message in the shared hash,
and the next signature was made over it (C14).
---
 CEX/ECDSABase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/ECDSABase.cpp b/CEX/ECDSABase.cpp
index 83f3287..4ee90e3 100644
--- a/CEX/ECDSABase.cpp
+++ b/CEX/ECDSABase.cpp
@@ -17,6 +17,8 @@ bool ECDSABase::Ed25519Sign(std::vector<uint8_t> &Signature, const std::vector<u
 	std::vector<uint8_t> hram(64);
 	EC25519::ge25519p3 R = { 0 };
 
+	// an earlier call may have failed half way
+	Digest->Reset();
 	// hash 1st half of sk to az
 	Digest->Update(PrivateKey, 0, 32);
 	Digest->Finalize(az, 0);
@@ -84,6 +86,7 @@ bool ECDSABase::Ed25519Verify(const std::vector<uint8_t> &Signature, const std::
 
 	if (res == true)
 	{
+		Digest->Reset();
 		Digest->Update(Signature, 0, 32);
 		Digest->Update(PublicKey, 0, 32);
 		Digest->Update(Message, 0, Message.size());
@@ -103,6 +106,7 @@ void ECDSABase::GenerateKeyPair(std::vector<uint8_t> &PublicKey, std::vector<uin
 {
 	EC25519::ge25519p3 A = { 0 };
 
+	Digest->Reset();
 	Digest->Compute(Seed, PrivateKey);
 
 	EC25519::Sc25519Clamp(PrivateKey);
-- 
2.43.0


From 9e238c4b1d1f2215a4cc9a2abf2afd9ad9101816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 55/78] fix: asynchronous socket requests no longer build a
 string from a null pointer

---
 CEX/IAsyncResult.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/IAsyncResult.h b/CEX/IAsyncResult.h
index d8d8f42..b598728 100644
--- a/CEX/IAsyncResult.h
+++ b/CEX/IAsyncResult.h
@@ -22,7 +22,7 @@ public:
 	IAsyncResult(const Socket &Parent, uint32_t Option)
 		:
 		Data(0),
-		Address(0),
+		Address(),
 		Flag(0),
 		Parent(Parent),
 		Option(Option)
@@ -32,7 +32,7 @@ public:
 	IAsyncResult(const Socket &Parent, uint32_t Option, uint32_t Flag)
 		:
 		Data(0),
-		Address(0),
+		Address(),
 		Flag(Flag),
 		Parent(Parent),
 		Option(Option)
@@ -42,7 +42,7 @@ public:
 	IAsyncResult(const Socket &Parent, const std::vector<uint8_t> Data, uint32_t Option, uint32_t Flag)
 		:
 		Data(Data),
-		Address(0),
+		Address(),
 		Flag(Flag),
 		Parent(Parent),
 		Option(Option)
-- 
2.43.0


From f7aec58dd40829dbb1010a24635a159a84703a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 56/78] fix: sockets send exactly the requested bytes, in band
 by default

---
 CEX/SocketBase.cpp | 2 +-
 CEX/SocketClient.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 2ff2977..cd08b6f 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -248,7 +248,7 @@ uint32_t SocketBase::Send(Socket &Source, const std::vector<uint8_t> &Input, siz
 	int32_t res;
 
 
-	res = send(Source.Connection, reinterpret_cast<const char*>(Input.data()), static_cast<int32_t>(Length) + 1, static_cast<int32_t>(Flags));
+	res = send(Source.Connection, reinterpret_cast<const char*>(Input.data()), static_cast<int32_t>(Length), static_cast<int32_t>(Flags));
 
 	if (res == SOCKET_RET_ERROR)
 	{
diff --git a/CEX/SocketClient.h b/CEX/SocketClient.h
index c53d418..76e5694 100644
--- a/CEX/SocketClient.h
+++ b/CEX/SocketClient.h
@@ -197,7 +197,7 @@ public:
 	/// <returns>The number of bytes sent to the remote host</returns>
 	///
 	/// <remarks>Successful send operation raises the SocketChanged event with the SocketEvents::Sent flag</remarks>
-	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::SendOOB);
+	uint32_t Send(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags = SocketSendFlags::None);
 
 	/// <summary>
 	/// Non-blocking transmission of data to the remote host
-- 
2.43.0


From 5fe857f14fd55fe8cbdcecc73c45d435afc53e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 57/78] fix: a socket is bound to the requested address, not to
 every interface

---
 CEX/SocketBase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index cd08b6f..30cc792 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -81,6 +81,8 @@ bool SocketBase::Bind(Socket &Source, const ipv4_address &Address, uint16_t Port
 #endif
 	sa.sin_family = AF_INET;
 	sa.sin_port = htons(static_cast<uint16_t>(Port));
+	const uint8_t octets[4] = { Address.a1, Address.a2, Address.a3, Address.a4 };
+	std::memcpy(&sa.sin_addr, octets, sizeof(octets));
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
 	Source.Address = Address.ToString(Address);
 	Source.AddressFamily = SocketAddressFamilies::IPv4;
@@ -100,6 +102,7 @@ bool SocketBase::Bind(Socket &Source, const ipv6_address &Address, uint16_t Port
 #endif
 	sa.sin6_family = AF_INET6;
 	sa.sin6_port = htons(static_cast<uint16_t>(Port));
+	std::memcpy(&sa.sin6_addr, ipv6_address::ToVector(Address).data(), sizeof(sa.sin6_addr));
 	res = bind(Source.Connection, reinterpret_cast<const sockaddr*>(&sa), sizeof(sa));
 	Source.Address = Address.ToString(Address);
 	Source.AddressFamily = SocketAddressFamilies::IPv6;
-- 
2.43.0


From 43a40fdaa0fe9ed5694b414051d41c6d400314ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 58/78] fix: moving an internet address moves every octet

---
 CEX/InternetAddress.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/CEX/InternetAddress.h b/CEX/InternetAddress.h
index a75b756..97f8db4 100644
--- a/CEX/InternetAddress.h
+++ b/CEX/InternetAddress.h
@@ -131,9 +131,9 @@ typedef struct ipv4_address
 	ipv4_address& operator=(ipv4_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
 
 		return *this;
 	}
@@ -513,21 +513,21 @@ typedef struct ipv6_address
 	ipv6_address& operator=(ipv6_address&& Source) noexcept
 	{
 		std::swap(a1, Source.a1);
-		std::swap(a2, Source.a1);
-		std::swap(a3, Source.a1);
-		std::swap(a4, Source.a1);
-		std::swap(a5, Source.a1);
-		std::swap(a6, Source.a1);
-		std::swap(a7, Source.a1);
-		std::swap(a8, Source.a1);
-		std::swap(a9, Source.a1);
-		std::swap(a10, Source.a1);
-		std::swap(a11, Source.a1);
-		std::swap(a12, Source.a1);
-		std::swap(a13, Source.a1);
-		std::swap(a14, Source.a1);
-		std::swap(a15, Source.a1);
-		std::swap(a16, Source.a1);
+		std::swap(a2, Source.a2);
+		std::swap(a3, Source.a3);
+		std::swap(a4, Source.a4);
+		std::swap(a5, Source.a5);
+		std::swap(a6, Source.a6);
+		std::swap(a7, Source.a7);
+		std::swap(a8, Source.a8);
+		std::swap(a9, Source.a9);
+		std::swap(a10, Source.a10);
+		std::swap(a11, Source.a11);
+		std::swap(a12, Source.a12);
+		std::swap(a13, Source.a13);
+		std::swap(a14, Source.a14);
+		std::swap(a15, Source.a15);
+		std::swap(a16, Source.a16);
 
 		return *this;
 	}
-- 
2.43.0


From f35836cff1e8835bd48edfcc1f8ef758817c2346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:36 +0000
Subject: [PATCH 59/78] fix: IPv6 addresses convert to and from text without
 loss

---
 CEX/InternetAddress.h | 94 ++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 41 deletions(-)

diff --git a/CEX/InternetAddress.h b/CEX/InternetAddress.h
index 97f8db4..0cc812f 100644
--- a/CEX/InternetAddress.h
+++ b/CEX/InternetAddress.h
@@ -627,17 +627,14 @@ typedef struct ipv6_address
 	/// <returns>The IPv6 address structure</returns>
 	static ipv6_address FromString(const std::string &Address)
 	{
-		const std::string DELIM = std::string(":");
 		const std::string DEMRK = std::string("::");
-		const std::string LPBK = std::string("::1");
 		const std::string DZONE = std::string("%");
 		ipv6_address add;
 		std::vector<uint8_t> tmpa(16);
+		std::vector<uint16_t> head;
+		std::vector<uint16_t> tail;
 		std::string sadd;
-		std::string str1;
-		std::string str2;
 		size_t i;
-		size_t j;
 		size_t pos;
 
 		pos = Address.find(DZONE);
@@ -655,39 +652,26 @@ typedef struct ipv6_address
 
 		if (pos != std::string::npos)
 		{
-			if (sadd != LPBK)
-			{
-				str1 = sadd.substr(0, pos);
-				str2 = sadd.substr(pos + 2);
-
-				str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
-				str2.erase(remove(str2.begin(), str2.end(), ':'), str2.end());
-				pos = tmpa.size() - (str2.size() / 2);
-
-				for (i = 0, j = 0; i < str1.size(); i += 2, ++j)
-				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str1, i);
-				}
-
-				for (i = 0, j = pos; i < str2.size(); i += 2, ++j)
-				{
-					tmpa[j] = IntegerTools::HexToInt<uint8_t>(str2, i);
-				}
-			}
-			else
-			{
-				tmpa[tmpa.size() - 1] = 1;
-			}
+			// the groups before, and after the run of zeroes
+			head = ToGroups(sadd.substr(0, pos));
+			tail = ToGroups(sadd.substr(pos + DEMRK.size()));
 		}
 		else
 		{
-			str1 = sadd;
-			str1.erase(remove(str1.begin(), str1.end(), ':'), str1.end());
+			head = ToGroups(sadd);
+		}
 
-			for (i = 0; i < str1.size(); i += 2)
-			{
-				tmpa[i] = IntegerTools::HexToInt<uint8_t>(str1, i);
-			}
+		for (i = 0; i < head.size() && i < 8; ++i)
+		{
+			tmpa[i * 2] = static_cast<uint8_t>(head[i] >> 8);
+			tmpa[(i * 2) + 1] = static_cast<uint8_t>(head[i]);
+		}
+
+		for (i = 0; i < tail.size() && i < 8; ++i)
+		{
+			pos = 7 - i;
+			tmpa[pos * 2] = static_cast<uint8_t>(tail[tail.size() - 1 - i] >> 8);
+			tmpa[(pos * 2) + 1] = static_cast<uint8_t>(tail[tail.size() - 1 - i]);
 		}
 
 		add.a1 = tmpa[0];
@@ -751,32 +735,60 @@ typedef struct ipv6_address
 		std::vector<uint8_t> tmpa;
 		std::string tmps;
 		size_t i;
+		bool cmp;
 
 		tmpa = ToVector(Address);
+		cmp = false;
 
-		for (i = 1; i < 16; i += 2)
+		for (i = 0; i < 16; i += 2)
 		{
-			if (tmpa[i - 1] == 0 && tmpa[i] == 0)
+			if (cmp == false && tmpa[i] == 0 && tmpa[i + 1] == 0)
 			{
-				if (tmps.size() > 2 && tmps.substr(tmps.size() - 2, 2) != DEMRK)
+				// the first run of zeroes is compressed
+				cmp = true;
+				tmps += DEMRK;
+
+				while (i < 14 && tmpa[i + 2] == 0 && tmpa[i + 3] == 0)
 				{
-					tmps += DELIM;
+					i += 2;
 				}
 			}
 			else
 			{
-				tmps += IntegerTools::IntToHex(tmpa[i - 1]) + IntegerTools::IntToHex(tmpa[i]);
-
-				if (i < 14)
+				if (tmps.size() != 0 && tmps.back() != ':')
 				{
 					tmps += DELIM;
 				}
+
+				tmps += IntegerTools::IntToHex(tmpa[i]) + IntegerTools::IntToHex(tmpa[i + 1]);
 			}
 		}
 
 		return tmps;
 	}
 
+private:
+
+	// the 16-bit groups of a colon delimited string
+	static std::vector<uint16_t> ToGroups(const std::string &Input)
+	{
+		std::vector<uint16_t> grps;
+		size_t len;
+		size_t pos;
+
+		pos = 0;
+
+		while (pos < Input.size())
+		{
+			len = Input.find(':', pos);
+			len = (len == std::string::npos) ? Input.size() : len;
+			grps.push_back(static_cast<uint16_t>(strtol(Input.substr(pos, len - pos).c_str(), NULL, 16)));
+			pos = len + 1;
+		}
+
+		return grps;
+	}
+
 } ipv6_address;
 
 NAMESPACE_ROOTEND
-- 
2.43.0


From cd4104332c08380ef1de8acd64a583bb59810ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 60/78] fix: testing if a socket is connected does not wait for
 data and sees the end of the stream

---
 CEX/SocketBase.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 30cc792..8fe2e36 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -27,19 +27,32 @@ bool SocketBase::IsBlocking(Socket &Source)
 
 bool SocketBase::IsConnected(Socket &Source)
 {
+	sockaddr_storage sa;
+	timeval tval;
+	socklen_t salen;
 	int32_t err;
 	char buf;
 	bool ret;
 
-	ret = true;
+	salen = sizeof(sa);
+	std::memset(&sa, 0x00, sizeof(sa));
+	std::memset(&tval, 0x00, sizeof(tval));
 
-	err = recv(Source.Connection, &buf, 1, MSG_PEEK);
+	ret = (getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&sa), &salen) != SOCKET_RET_ERROR);
 
-	if (err == SOCKET_RET_ERROR)
+	// only peek if there is something to read, on a blocking socket the call would wait for the remote host
+	if (ret == true && ReceiveReady(Source, &tval) == true)
 	{
-		if (GetLastError() != SocketExceptions::SocketWouldBlock)
+		err = recv(Source.Connection, &buf, 1, MSG_PEEK);
+
+		if (err == SOCKET_RET_ERROR)
+		{
+			ret = (GetLastError() == SocketExceptions::SocketWouldBlock);
+		}
+		else
 		{
-			ret = false;
+			// zero is the end of the stream
+			ret = (err != 0);
 		}
 	}
 
-- 
2.43.0


From 8896b85f9f7e3eba170147643b5ec9fa39280c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 61/78] fix: closing a socket always releases its handle, and a
 cleared socket holds none

---
 CEX/Socket.cpp     |  2 +-
 CEX/SocketBase.cpp | 38 ++++++++++++++++++--------------------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/CEX/Socket.cpp b/CEX/Socket.cpp
index f595aec..bf7cdcc 100644
--- a/CEX/Socket.cpp
+++ b/CEX/Socket.cpp
@@ -69,7 +69,7 @@ Socket::~Socket()
 
 void Socket::Clear()
 {
-	Connection = 0;
+	Connection = UNINITIALIZED_SOCKET;
 	Address.clear();
 	InstanceCount = 0;
 	Port = 0;
diff --git a/CEX/SocketBase.cpp b/CEX/SocketBase.cpp
index 8fe2e36..0185319 100644
--- a/CEX/SocketBase.cpp
+++ b/CEX/SocketBase.cpp
@@ -130,25 +130,18 @@ void SocketBase::CloseSocket(Socket &Source)
 	if (Source.Connection != UNINITIALIZED_SOCKET && Source.Connection != SOCKET_RET_ERROR)
 	{
 #if defined(CEX_OS_WINDOWS)
-		res = shutdown(Source.Connection, SD_SEND);
-
-		if (res != SOCKET_RET_ERROR)
-		{
-			closesocket(Source.Connection);
-		}
-		else
-		{
-			throw CryptoSocketException(std::string("Socket"), std::string("CloseSocket"), std::string("The socket closed abnormally!"), ErrorCodes::SocketFailure);
-		}
-
+		// fails on a socket that is not connected, which must be closed all the same
+		shutdown(Source.Connection, SD_SEND);
+		res = closesocket(Source.Connection);
 #else
 		res = close(Source.Connection);
+#endif
+		Source.Clear();
 
 		if (res == SOCKET_RET_ERROR)
 		{
 			throw CryptoSocketException(std::string("Socket"), std::string("CloseSocket"), std::string("The socket closed abnormally!"), ErrorCodes::SocketFailure);
 		}
-#endif
 	}
 
 	Source.Clear();
@@ -280,23 +273,28 @@ void SocketBase::ShutDown(Socket &Source, SocketShutdownFlags Parameters)
 
 	int32_t res;
 
-	if (Source.Connection != UNINITIALIZED_SOCKET && IsConnected(Source))
+	if (Source.Connection != UNINITIALIZED_SOCKET)
 	{
-		res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
+		res = SOCKET_RET_SUCCESS;
 
-		if (res == SOCKET_RET_ERROR)
+		if (IsConnected(Source))
 		{
-			throw CryptoSocketException(std::string("Socket"), std::string("ShutDown"), std::string("The socket shutdown function has errored!"), ErrorCodes::SocketFailure);
+			res = shutdown(Source.Connection, static_cast<int32_t>(Parameters));
 		}
-	}
 
 #if defined(CEX_OS_WINDOWS)
-	closesocket(Source.Connection);
+		closesocket(Source.Connection);
 #else
-	close(Source.Connection);
+		close(Source.Connection);
 #endif
 
-	Source.Connection = UNINITIALIZED_SOCKET;
+		Source.Connection = UNINITIALIZED_SOCKET;
+
+		if (res == SOCKET_RET_ERROR)
+		{
+			throw CryptoSocketException(std::string("Socket"), std::string("ShutDown"), std::string("The socket shutdown function has errored!"), ErrorCodes::SocketFailure);
+		}
+	}
 }
 
 //~~~Helper Functions~~~//
-- 
2.43.0


From 31c7c244e2f8fa4f134a23dad59d8f0b6c8b3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 62/78] fix: a socket client closes its handle once, and raises
 one event per connection, disconnection or failure

---
 CEX/SocketClient.cpp | 173 ++++++++++++++++++++++++++++++-------------
 CEX/SocketClient.h   |   8 ++
 2 files changed, 128 insertions(+), 53 deletions(-)

diff --git a/CEX/SocketClient.cpp b/CEX/SocketClient.cpp
index 2ea8e2a..0250208 100644
--- a/CEX/SocketClient.cpp
+++ b/CEX/SocketClient.cpp
@@ -76,21 +76,11 @@ bool SocketClient::Connect(const std::string &Host, std::string &Service)
 	{
 		ipv4_info info = NetworkTools::GetIPv4Info(Host, Service);
 		ret = Connect(info.address, info.port);
-
-		if (ret == true)
-		{
-			OnSocketConnected(1, ipv4_address::ToString(info.address));
-		}
 	}
 	else
 	{
 		ipv6_info info = NetworkTools::GetIPv6Info(Host, Service);
 		ret = Connect(info.address, info.port);
-
-		if (ret == true)
-		{
-			OnSocketConnected(1, ipv6_address::ToString(info.address));
-		}
 	}
 
 	return ret;
@@ -98,16 +88,20 @@ bool SocketClient::Connect(const std::string &Host, std::string &Service)
 
 bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 {
+	Socket sock;
+	SocketExceptions err;
 	bool ret;
 
 	// create the socket
-	if (SocketBase::Create(m_baseSocket) == false)
+	if (Open(sock) == false)
 	{
 		throw CryptoSocketException(std::string("SocketClient"), std::string("Connect"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
 	}
 
 	// connect
-	ret = SocketBase::Connect(m_baseSocket, Address, Port);
+	ret = SocketBase::Connect(sock, Address, Port);
+	err = SocketBase::GetLastError();
+	ret = Opened(sock, ret);
 
 	if (ret == true)
 	{
@@ -115,7 +109,7 @@ bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		OnSocketError(err, std::string("The connection was refused"));
 	}
 
 	return ret;
@@ -123,16 +117,20 @@ bool SocketClient::Connect(const ipv4_address &Address, uint16_t Port)
 
 bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 {
+	Socket sock;
+	SocketExceptions err;
 	bool ret;
 
 	// create the socket
-	if (SocketBase::Create(m_baseSocket) == false)
+	if (Open(sock) == false)
 	{
 		throw CryptoSocketException(std::string("SocketClient"), std::string("Connect"), std::string("The socket could not be created!"), ErrorCodes::SocketInvalid);
 	}
 
 	// connect
-	ret = SocketBase::Connect(m_baseSocket, Address, Port);
+	ret = SocketBase::Connect(sock, Address, Port);
+	err = SocketBase::GetLastError();
+	ret = Opened(sock, ret);
 
 	if (ret == true)
 	{
@@ -140,7 +138,7 @@ bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
-		OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused"));
+		OnSocketError(err, std::string("The connection was refused"));
 	}
 
 	return ret;
@@ -148,7 +146,7 @@ bool SocketClient::Connect(const ipv6_address &Address, uint16_t Port)
 
 void SocketClient::ConnectAsync(const std::string &Address, uint16_t Port)
 {
-	IAsyncResult* ar = new IAsyncResult(m_baseSocket, Address, static_cast<uint32_t>(Port));
+	IAsyncResult* ar = new IAsyncResult(Share(), Address, static_cast<uint32_t>(Port));
 	std::function<void(IAsyncResult*)> f = [this](IAsyncResult* x) { ConnectCallback(x); };
 	std::packaged_task<void(IAsyncResult*)> task(f);
 	std::future<void> result = task.get_future();
@@ -158,25 +156,26 @@ void SocketClient::ConnectAsync(const std::string &Address, uint16_t Port)
 
 void SocketClient::ConnectCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
-	bool ret;
+	std::unique_ptr<IAsyncResult> res(Result);
 
 	if (Result != nullptr)
 	{
-		ret = Connect(Result->Address, static_cast<uint16_t>(Result->Option));
-
-
-		if (ret == true)
+		try
 		{
-			OnSocketConnected(0, Result->Address);
+			// raises the connected, or the error event
+			if (Result->Parent.AddressFamily == SocketAddressFamilies::IPv4)
+			{
+				Connect(ipv4_address::FromString(Result->Address), static_cast<uint16_t>(Result->Option));
+			}
+			else
+			{
+				Connect(ipv6_address::FromString(Result->Address), static_cast<uint16_t>(Result->Option));
+			}
 		}
-		else
+		catch (CryptoSocketException &ex)
 		{
-			OnSocketError(SocketBase::GetLastError(), std::string("The host is unreachable"));
+			OnSocketError(SocketBase::GetLastError(), ex.Message());
 		}
-
-		delete Result;
 	}
 }
 
@@ -188,7 +187,8 @@ uint32_t SocketClient::Receive(std::vector<uint8_t> &Output, SocketReceiveFlags
 
 	try
 	{
-		ret = SocketBase::Receive(m_baseSocket, Output, Flags);
+		Socket sock = Share();
+		ret = SocketBase::Receive(sock, Output, Flags);
 	}
 	catch (CryptoSocketException&)
 	{
@@ -211,7 +211,8 @@ uint32_t SocketClient::Receive(size_t BufferLength, SocketReceiveFlags Flags)
 
 	try
 	{
-		ret = SocketBase::Receive(m_baseSocket, otp, Flags);
+		Socket sock = Share();
+		ret = SocketBase::Receive(sock, otp, Flags);
 	}
 	catch(CryptoSocketException&)
 	{
@@ -233,7 +234,7 @@ uint32_t SocketClient::Receive(size_t BufferLength, SocketReceiveFlags Flags)
 
 void SocketClient::ReceiveAsync(size_t BufferLength, SocketReceiveFlags Flags)
 {
-	IAsyncResult* ar = new IAsyncResult(m_baseSocket, static_cast<uint32_t>(BufferLength), static_cast<uint32_t>(Flags));
+	IAsyncResult* ar = new IAsyncResult(Share(), static_cast<uint32_t>(BufferLength), static_cast<uint32_t>(Flags));
 	std::function<void(IAsyncResult*)> f = [this](IAsyncResult* x) { ReceiveCallback(x); };
 	std::packaged_task<void(IAsyncResult*)> task(f);
 	std::future<void> result = task.get_future();
@@ -243,18 +244,20 @@ void SocketClient::ReceiveAsync(size_t BufferLength, SocketReceiveFlags Flags)
 
 void SocketClient::ReceiveCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
+	std::unique_ptr<IAsyncResult> res(Result);
+	SocketExceptions err(SocketExceptions::None);
+	std::string msg;
 	uint32_t ret(0);
 
 	if (Result != nullptr)
 	{
-		std::vector<uint8_t> otp(Result->Option);
+		std::vector<uint8_t> otp;
 
 		try
 		{
 			while (true)
 			{
+				otp.resize(Result->Option);
 				ret = SocketBase::Receive(Result->Parent, otp, static_cast<SocketReceiveFlags>(Result->Flag));
 
 				if (ret == 0)
@@ -262,18 +265,26 @@ void SocketClient::ReceiveCallback(IAsyncResult* Result)
 					break;
 				}
 
+				otp.resize(ret);
 				OnSocketReceived(ret, otp);
 			}
 		}
 		catch (CryptoSocketException &ex)
 		{
-			OnSocketError(SocketBase::GetLastError(), ex.Message());
+			err = SocketBase::GetLastError();
+			msg = ex.Message();
 		}
 
-		SocketBase::CloseSocket(Result->Parent);
-		OnSocketDisconnected(0, "The socket was closed normally");
+		// if the socket was shut down locally, the handle is not ours to close and the event has been raised
+		if (Disconnect(Result->Parent.Connection) == true)
+		{
+			if (msg.size() != 0)
+			{
+				OnSocketError(err, msg);
+			}
 
-		delete Result;
+			OnSocketDisconnected(0, "The socket was closed normally");
+		}
 	}
 }
 
@@ -285,7 +296,8 @@ uint32_t SocketClient::Send(const std::vector<uint8_t> &Input, size_t Length, So
 
 	try
 	{
-		ret = SocketBase::Send(m_baseSocket, Input, Length, Flags);
+		Socket sock = Share();
+		ret = SocketBase::Send(sock, Input, Length, Flags);
 	}
 	catch (CryptoSocketException&)
 	{
@@ -306,7 +318,7 @@ uint32_t SocketClient::Send(const std::vector<uint8_t> &Input, size_t Length, So
 
 void SocketClient::SendAsync(const std::vector<uint8_t> &Input, size_t Length, SocketSendFlags Flags)
 {
-	IAsyncResult* ar = new IAsyncResult(m_baseSocket, Input, static_cast<uint32_t>(Length), static_cast<uint32_t>(Flags));
+	IAsyncResult* ar = new IAsyncResult(Share(), Input, static_cast<uint32_t>(Length), static_cast<uint32_t>(Flags));
 	std::function<void(IAsyncResult*)> f = [this](IAsyncResult* x) { SendCallback(x); };
 	std::packaged_task<void(IAsyncResult*)> task(f);
 	std::future<void> result = task.get_future();
@@ -316,8 +328,8 @@ void SocketClient::SendAsync(const std::vector<uint8_t> &Input, size_t Length, S
 
 void SocketClient::SendCallback(IAsyncResult* Result)
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
+	std::unique_ptr<IAsyncResult> res(Result);
+	std::string msg("The data send function sent no data");
 	uint32_t ret;
 
 	if (Result != nullptr)
@@ -330,7 +342,7 @@ void SocketClient::SendCallback(IAsyncResult* Result)
 		}
 		catch (CryptoSocketException &ex)
 		{
-			OnSocketError(SocketBase::GetLastError(), ex.Message());
+			msg = ex.Message();
 		}
 
 		if (ret != 0)
@@ -339,27 +351,82 @@ void SocketClient::SendCallback(IAsyncResult* Result)
 		}
 		else
 		{
-			OnSocketError(SocketBase::GetLastError(), std::string("The data send function sent no data"));
+			OnSocketError(SocketBase::GetLastError(), msg);
 		}
-
-		delete Result;
 	}
 }
 
 void SocketClient::ShutDown()
 {
-	try
+	Socket sock = Share();
+
+	if (Disconnect(sock.Connection) == true)
 	{
-		SocketBase::ShutDown(m_baseSocket, SocketShutdownFlags::Receive);
+		OnSocketDisconnected(sock.InstanceCount, "The socket at address: " + sock.Address + " was disconnected");
 	}
-	catch (CryptoSocketException&)
+}
+
+//~~~Private Functions~~~//
+
+bool SocketClient::Disconnect(socket_t Connection)
+{
+	// closes the socket once, whichever of the user or the receiver ends the connection first
+	std::unique_lock<std::mutex> lock(m_socketLock);
+	bool ret;
+
+	ret = (Connection != UNINITIALIZED_SOCKET && m_baseSocket.Connection == Connection);
+
+	if (ret == true)
 	{
-		throw;
+		Socket sock(m_baseSocket);
+		m_baseSocket.Clear();
+		SocketBase::ShutDown(sock, SocketShutdownFlags::Receive);
 	}
 
-	OnSocketDisconnected(m_baseSocket.InstanceCount, "The socket at address: " + m_baseSocket.Address + " was disconnected");
+	return ret;
+}
 
-	m_baseSocket.Clear();
+bool SocketClient::Open(Socket &Target)
+{
+	std::unique_lock<std::mutex> lock(m_socketLock);
+	bool ret;
+
+	ret = SocketBase::Create(m_baseSocket);
+	Target = m_baseSocket;
+
+	return ret;
+}
+
+bool SocketClient::Opened(Socket &Target, bool Connected)
+{
+	bool ret;
+
+	ret = false;
+
+	if (Connected == true)
+	{
+		std::unique_lock<std::mutex> lock(m_socketLock);
+
+		// the client may have been shut down while it was connecting
+		if (m_baseSocket.Connection == Target.Connection)
+		{
+			m_baseSocket = Target;
+			ret = true;
+		}
+	}
+	else
+	{
+		Disconnect(Target.Connection);
+	}
+
+	return ret;
+}
+
+Socket SocketClient::Share()
+{
+	std::unique_lock<std::mutex> lock(m_socketLock);
+
+	return m_baseSocket;
 }
 
 NAMESPACE_NETWORKEND
\ No newline at end of file
diff --git a/CEX/SocketClient.h b/CEX/SocketClient.h
index 76e5694..09dd873 100644
--- a/CEX/SocketClient.h
+++ b/CEX/SocketClient.h
@@ -19,6 +19,7 @@ class SocketClient
 private:
 
 	Socket m_baseSocket;
+	std::mutex m_socketLock;
 
 public:
 
@@ -224,6 +225,13 @@ public:
 	/// <exception cref="CryptoSocketException">Thrown if the socket returns an error</exception>
 	/// <remarks>Successful change to shutdown state raises the SocketChanged event with the SocketEvents::ShutDown flag</remarks>
 	void ShutDown();
+
+private:
+
+	bool Disconnect(socket_t Connection);
+	bool Open(Socket &Target);
+	bool Opened(Socket &Target, bool Connected);
+	Socket Share();
 };
 
 NAMESPACE_NETWORKEND
-- 
2.43.0


From be87bc3ef6c94805a8f37c56189cd16900926850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:39 +0000
Subject: [PATCH 63/78] fix: a socket server stops and waits for its listener,
 and closes every socket it still holds

---
 CEX/SocketServer.cpp | 247 +++++++++++++++++++++++--------------------
 CEX/SocketServer.h   |   9 +-
 2 files changed, 140 insertions(+), 116 deletions(-)

diff --git a/CEX/SocketServer.cpp b/CEX/SocketServer.cpp
index 3d5dc51..73b5831 100644
--- a/CEX/SocketServer.cpp
+++ b/CEX/SocketServer.cpp
@@ -46,22 +46,12 @@ public:
 
 		BaseSocket.Clear();
 
-		if (SocketPool.size() != 0)
+		for (i = 0; i < SocketPool.size(); ++i)
 		{
-			for (i = 0; i < SocketPool.size(); ++i)
-			{
-				if (SocketPool[i] != nullptr)
-				{
-					Socket* s = SocketPool[i];
-					SocketBase::CloseSocket(*s);
-					delete s;
-					SocketPool.erase(SocketPool.begin() + i);
-				}
-			}
-
-			SocketPool.clear();
+			delete SocketPool[i];
 		}
 
+		SocketPool.clear();
 		BackLog = 0;
 		MaxConnections = 0;
 		InstanceCounter = 0;
@@ -75,7 +65,8 @@ public:
 SocketServer::SocketServer(SocketAddressFamilies AddressFamily, SocketProtocols SocketProtocol, SocketTransports SocketTransport)
 	:
 	m_socketServerState(new SocketServerState(AddressFamily, SocketProtocol, SocketTransport)),
-	m_ayncListener(nullptr)
+	m_ayncListener(nullptr),
+	m_listenerId(std::thread::id())
 {
 #if defined(CEX_OS_WINDOWS)
 	SocketBase::StartSockets();
@@ -143,6 +134,7 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -153,6 +145,7 @@ Socket SocketServer::Listen(const ipv4_address &Address, uint16_t Port)
 	}
 	else
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -185,6 +178,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
@@ -195,6 +189,7 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 	}
 	else
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("Listen"), std::string("The socket failed to enter the listening state!"), ErrorCodes::SocketFailure);
 	}
 
@@ -216,6 +211,14 @@ Socket SocketServer::Listen(const ipv6_address &Address, uint16_t Port)
 
 void SocketServer::ListenAsync(const ipv4_address &Address, uint16_t Port)
 {
+	if (m_socketServerState->IsListening == true)
+	{
+		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The server is already listening!"), ErrorCodes::IllegalOperation);
+	}
+
+	// release a listener that was stopped from its own thread
+	ListenStop();
+
 	// create the socket
 	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
 	{
@@ -228,30 +231,23 @@ void SocketServer::ListenAsync(const ipv4_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
-	// listen for incoming connections
-	if (SocketBase::Listen(m_socketServerState->BaseSocket, Backlog()) == true)
-	{
-		std::function<void()> f = [this]() { AcceptBegin(); };
-		std::packaged_task<void()> task(f);
-		std::future<void> result = task.get_future();
-		m_ayncListener = new std::thread(std::move(task));
-
-		m_socketServerState->IsListening = true;
-		m_ayncListener->detach();
-		//thd->join(); // Note: for testing, remove!
-	}
-	else
-	{
-		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
-		OnSocketError(SocketBase::GetLastError(), std::string("The socket could not enter the listening state"));
-	}
+	ListenBegin();
 }
 
 void SocketServer::ListenAsync(const ipv6_address &Address, uint16_t Port)
 {
+	if (m_socketServerState->IsListening == true)
+	{
+		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The server is already listening!"), ErrorCodes::IllegalOperation);
+	}
+
+	// release a listener that was stopped from its own thread
+	ListenStop();
+
 	// create the socket
 	if (SocketBase::Create(m_socketServerState->BaseSocket) == false)
 	{
@@ -264,150 +260,168 @@ void SocketServer::ListenAsync(const ipv6_address &Address, uint16_t Port)
 	// bind the socket
 	if (SocketBase::Bind(m_socketServerState->BaseSocket, Address, Port) == false)
 	{
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
 		throw CryptoSocketException(std::string("SocketServer"), std::string("ListenAsync"), std::string("The socket could not be bound!"), ErrorCodes::SocketRefused);
 	}
 
-	// listen for incoming connections
-	if (SocketBase::Listen(m_socketServerState->BaseSocket, Backlog()) == true)
-	{
-		std::function<void()> f = [this]() { AcceptBegin(); };
-		std::packaged_task<void()> task(f);
-		std::future<void> result = task.get_future();
-		m_ayncListener = new std::thread(std::move(task));
-
-		m_socketServerState->IsListening = true;
-		m_ayncListener->detach();
-	}
-	else
-	{
-		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
-		OnSocketError(SocketBase::GetLastError(), std::string("The socket could not enter the listening state"));
-	}
+	ListenBegin();
 }
 
 void SocketServer::ListenStop()
 {
-	size_t i;
+	// the listener tests this flag between connections
+	m_socketServerState->IsClosed = true;
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
-	{
-		Socket* sk = m_socketServerState->SocketPool[i];
-
-		if (sk != nullptr)
-		{
-			if (SocketBase::IsConnected(*sk) == true)
-			{
-				SocketBase::ShutDown(*sk, SocketShutdownFlags::Both);
-			}
-
-			m_socketServerState->SocketPool.erase(m_socketServerState->SocketPool.begin() + i);
-
-			delete sk;
-		}
-	}
-
-	if (m_ayncListener != nullptr)
+	if (m_ayncListener != nullptr && m_listenerId.load() != std::this_thread::get_id())
 	{
+		m_ayncListener->join();
 		delete m_ayncListener;
+		m_ayncListener = nullptr;
+		m_listenerId = std::thread::id();
 	}
 }
 
 void SocketServer::ShutDown()
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
-	size_t i;
-
 	ListenStop();
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
+	if (m_ayncListener == nullptr)
 	{
-		Socket* s = m_socketServerState->SocketPool[i];
-
-		if (s != nullptr)
-		{
-			try
-			{
-				SocketBase::ShutDown(*s, SocketShutdownFlags::Both);
-			}
-			catch (CryptoSocketException&)
-			{
-				OnSocketError(SocketExceptions::SocketShutDown, std::string("The child socket did not shutdown gracefully"));
-			}
-
-			delete s;
-		}
-	}
-
-	m_socketServerState->SocketPool.clear();
-
-	try
-	{
-		SocketBase::ShutDown(m_socketServerState->BaseSocket, SocketShutdownFlags::Both);
-	}
-	catch(CryptoSocketException&)
-	{
-		throw;
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
+		m_socketServerState->IsListening = false;
 	}
-
-	m_socketServerState->BaseSocket.Clear();
 }
 
 //~~~Private Functions~~~//
 
 void SocketServer::AcceptBegin()
 {
-	std::mutex m;
-	std::unique_lock<std::mutex> lock(m);
+	timeval tval;
+
+	m_listenerId = std::this_thread::get_id();
 
 	// accept connection requests while open
 	while (!IsClosed())
 	{
 		m_socketServerState->InstanceCounter -= PollSockets();
 
-		if (m_socketServerState->SocketPool.size() < MaxConnections())
+		if (m_socketServerState->SocketPool.size() >= MaxConnections())
+		{
+			// wait for a connection to end
+			std::this_thread::sleep_for(std::chrono::milliseconds(POLL_INTERVAL));
+			continue;
+		}
+
+		// wait for a connection request, or for the server to be stopped
+		std::memset(&tval, 0x00, sizeof(tval));
+		tval.tv_usec = POLL_INTERVAL * 1000;
+
+		if (SocketBase::ReceiveReady(m_socketServerState->BaseSocket, &tval) == true)
 		{
 			// engage the accept callback
 			++m_socketServerState->InstanceCounter;
 			IAsyncResult* ar = new IAsyncResult(m_socketServerState->BaseSocket, m_socketServerState->InstanceCounter);
-			AcceptCallback(ar);
+
+			try
+			{
+				AcceptCallback(ar);
+			}
+			catch (std::exception&)
+			{
+				OnSocketError(SocketExceptions::BlockingCancelled, std::string("The connection handler has failed"));
+			}
 		}
 	}
 
-	// join threads and delete all sockets
+	// close and delete all sockets
 	AcceptEnd();
 }
 
 void SocketServer::AcceptCallback(IAsyncResult* Result)
 {
-
 	if (Result != nullptr)
 	{
+		SocketExceptions err;
 		Socket* target = new Socket(Result->Parent.AddressFamily, Result->Parent.SocketProtocol, Result->Parent.SocketTransport);
-		target->InstanceCount = Result->Option;
+		const int32_t OPTION = Result->Option;
 
 		if (SocketBase::Accept(Result->Parent, *target) == false)
 		{
+			err = SocketBase::GetLastError();
 			// delete the socket
 			delete target;
+			delete Result;
 			// signal the error
-			OnSocketError(SocketBase::GetLastError(), std::string("The connection was refused or timed out"));
+			OnSocketError(err, std::string("The connection was refused or timed out"));
 		}
 		else
 		{
-			// send the socket to the main thread
-			OnAsyncSocketAccepted(target->InstanceCount, *target);
+			target->InstanceCount = OPTION;
+			delete Result;
 			// add the socket to the pool
 			m_socketServerState->SocketPool.push_back(target);
+			// send the socket to the main thread
+			OnAsyncSocketAccepted(OPTION, *target);
 		}
-
-		delete Result;
 	}
 }
 
 void SocketServer::AcceptEnd()
 {
-	ListenStop();
+	size_t i;
+
+	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
+	{
+		Socket* sk = m_socketServerState->SocketPool[i];
+
+		try
+		{
+			if (SocketBase::IsConnected(*sk) == true)
+			{
+				SocketBase::ShutDown(*sk, SocketShutdownFlags::Both);
+			}
+		}
+		catch (CryptoSocketException&)
+		{
+			OnSocketError(SocketExceptions::SocketShutDown, std::string("The child socket did not shutdown gracefully"));
+		}
+
+		delete sk;
+	}
+
+	m_socketServerState->SocketPool.clear();
+	SocketBase::CloseSocket(m_socketServerState->BaseSocket);
+	m_socketServerState->IsListening = false;
+}
+
+void SocketServer::ListenBegin()
+{
+	SocketExceptions err;
+
+	// listen for incoming connections
+	if (SocketBase::Listen(m_socketServerState->BaseSocket, Backlog()) == true)
+	{
+		m_socketServerState->IsClosed = false;
+		m_socketServerState->IsListening = true;
+
+		try
+		{
+			std::packaged_task<void()> task([this]() { AcceptBegin(); });
+			m_ayncListener = new std::thread(std::move(task));
+		}
+		catch (...)
+		{
+			m_socketServerState->IsListening = false;
+			SocketBase::CloseSocket(m_socketServerState->BaseSocket);
+			throw;
+		}
+	}
+	else
+	{
+		err = SocketBase::GetLastError();
+		SocketBase::CloseSocket(m_socketServerState->BaseSocket);
+		OnSocketError(err, std::string("The socket could not enter the listening state"));
+	}
 }
 
 uint32_t SocketServer::PollSockets()
@@ -415,18 +429,23 @@ uint32_t SocketServer::PollSockets()
 	size_t i;
 	uint32_t ret;
 
+	i = 0;
 	ret = 0;
 
-	for (i = 0; i < m_socketServerState->SocketPool.size(); ++i)
+	while (i < m_socketServerState->SocketPool.size())
 	{
 		Socket* sk = m_socketServerState->SocketPool[i];
 
-		if (sk != nullptr && SocketBase::IsConnected(*sk) == false)
+		if (SocketBase::IsConnected(*sk) == false)
 		{
 			m_socketServerState->SocketPool.erase(m_socketServerState->SocketPool.begin() + i);
 			delete sk;
 			++ret;
 		}
+		else
+		{
+			++i;
+		}
 	}
 
 	return ret;
diff --git a/CEX/SocketServer.h b/CEX/SocketServer.h
index 90045c6..7005ffb 100644
--- a/CEX/SocketServer.h
+++ b/CEX/SocketServer.h
@@ -5,7 +5,7 @@
 #include "IAsyncResult.h"
 #include "SocketBase.h"
 #include "SocketExceptions.h"
-#include <mutex>
+#include <atomic>
 #include <thread>
 
 NAMESPACE_NETWORK
@@ -21,11 +21,13 @@ private:
 
 	static const uint32_t DEF_BACKLOG = SOCKET_MAX_CONN;
 	static const uint32_t MAX_SOCKETS = 10000;
+	static const uint32_t POLL_INTERVAL = 50;
 
 	class SocketServerState;
 
 	std::unique_ptr<SocketServerState> m_socketServerState; 
 	std::thread* m_ayncListener;
+	std::atomic<std::thread::id> m_listenerId;
 
 public:
 
@@ -161,7 +163,9 @@ public:
 	void ListenAsync(const ipv6_address &Address, uint16_t Port);
 
 	/// <summary>
-	/// Stop listening for a connection
+	/// Stop listening for a connection.
+	/// <para>Waits for the listener thread to end, and closes the accepted connections that are still open.
+	/// When called from an event handler on the listener thread, this is done once the handler returns.</para>
 	/// </summary>
 	void ListenStop();
 
@@ -178,6 +182,7 @@ private:
 	void AcceptBegin();
 	void AcceptEnd();
 	void AcceptCallback(IAsyncResult* Result);
+	void ListenBegin();
 	uint32_t PollSockets();
 	void SetOptions();
 };
-- 
2.43.0


From acd822fb69fc8b89ca287768fe4dd0548de8d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 64/78] fix: host lookups return the resolved address and port

---
 CEX/NetworkTools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index fc9f02b..e749ce0 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -118,11 +118,12 @@ ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &
 	if (res == 0)
 	{
 		char ipstr[INET_ADDRSTRLEN] = { 0 };
+		std::memcpy(&sa, result->ai_addr, sizeof(sa));
+		inet_ntop(AF_INET, &sa.sin_addr, ipstr, INET_ADDRSTRLEN);
 		sai.assign(ipstr);
-		inet_ntop(AF_INET, &sa.sin_addr, ipstr, INET_ADDRSTRLEN); // fix and test this
 		ipv4_address ipa = ipv4_address::FromString(sai);
 		info.address = ipa;
-		info.port = (uint16_t)ntohs(((struct sockaddr_in*)result->ai_addr)->sin_port);
+		info.port = static_cast<uint16_t>(ntohs(sa.sin_port));
 
 		if (result != NULL)
 		{
@@ -191,6 +192,7 @@ ipv6_info NetworkTools::GetIPv6Info(const std::string &Host, const std::string &
 			{
 				struct sockaddr_in6 *ipv6 = reinterpret_cast<struct sockaddr_in6*>(p->ai_addr);
 				addr = &(ipv6->sin6_addr);
+				info.port = static_cast<uint16_t>(ntohs(ipv6->sin6_port));
 				inet_ntop(p->ai_family, addr, reinterpret_cast<PSTR>(ipstr), sizeof(ipstr));
 				break;
 			}
@@ -199,7 +201,6 @@ ipv6_info NetworkTools::GetIPv6Info(const std::string &Host, const std::string &
 		sai.assign(ipstr);
 		ipv6_address ipa = ipv6_address::FromString(sai);
 		info.address = ipa;
-		info.port = static_cast<uint16_t>(ntohs(sa.sin6_port));
 
 		if (result != NULL)
 		{
-- 
2.43.0


From 42337a11992981d19e6db90d03f12bdcf5dfcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:03 +0000
Subject: [PATCH 65/78] fix: the names of a socket and of its peer are read
 into a buffer of the right size

---
 CEX/NetworkTools.cpp | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index e749ce0..22e479d 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -337,58 +337,62 @@ std::string NetworkTools::GetPeerName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
 	socklen_t psalen;
-	std::string name("");
-	size_t slen;
+	char name[INET6_ADDRSTRLEN] = { 0 };
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
+	std::memset(&psa, 0x00, sizeof(psa));
 
-	res = getpeername(Source.Connection, &psa, &psalen);
+	res = getpeername(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetPeerName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
+	if (psa.ss_family == AF_INET6)
+	{
+		inet_ntop(AF_INET6, &reinterpret_cast<sockaddr_in6*>(&psa)->sin6_addr, name, INET6_ADDRSTRLEN);
+	}
+	else
 	{
-		name = reinterpret_cast<char*>(psa.sa_data);
+		inet_ntop(AF_INET, &reinterpret_cast<sockaddr_in*>(&psa)->sin_addr, name, INET6_ADDRSTRLEN);
 	}
 
-	return name;
+	return std::string(name);
 }
 
 std::string NetworkTools::GetSocketName(Socket &Source)
 {
 	CEXASSERT(Source.Connection != UNINITIALIZED_SOCKET, "the socket has not been initialized.");
 
-	sockaddr psa;
+	sockaddr_storage psa;
 	socklen_t psalen;
-	std::string name;
-	size_t slen;
+	char name[INET6_ADDRSTRLEN] = { 0 };
 	int32_t res;
 
-	psalen = 0;
+	psalen = sizeof(psa);
+	std::memset(&psa, 0x00, sizeof(psa));
 
-	res = getsockname(Source.Connection, &psa, &psalen);
+	res = getsockname(Source.Connection, reinterpret_cast<sockaddr*>(&psa), &psalen);
 
 	if (res == SOCKET_RET_ERROR)
 	{
 		throw CryptoSocketException(std::string("Socket"), std::string("GetSocketName"), std::string("The socket address is invalid!"), ErrorCodes::SocketFailure);
 	}
 
-	slen = static_cast<size_t>(psalen);
-
-	if (slen != 0)
+	if (psa.ss_family == AF_INET6)
+	{
+		inet_ntop(AF_INET6, &reinterpret_cast<sockaddr_in6*>(&psa)->sin6_addr, name, INET6_ADDRSTRLEN);
+	}
+	else
 	{
-		name = reinterpret_cast<char*>(psa.sa_data);
+		inet_ntop(AF_INET, &reinterpret_cast<sockaddr_in*>(&psa)->sin_addr, name, INET6_ADDRSTRLEN);
 	}
 
-	return name;
+	return std::string(name);
 }
 
 uint16_t NetworkTools::PortNameToNumber(const std::string &Name, const std::string &Protocol)
-- 
2.43.0


From 88eda941d519fdb2d5aac10b139323cb1de4a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:39 +0000
Subject: [PATCH 66/78] fix: an IPv4 host lookup does not build its result from
 a null address

---
 CEX/NetworkTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/NetworkTools.cpp b/CEX/NetworkTools.cpp
index 22e479d..3da0aeb 100644
--- a/CEX/NetworkTools.cpp
+++ b/CEX/NetworkTools.cpp
@@ -92,7 +92,7 @@ ipv6_address NetworkTools::GetIPv6Address()
 
 ipv4_info NetworkTools::GetIPv4Info(const std::string &Host, const std::string &Service)
 {
-	ipv4_info info = { 0 };
+	ipv4_info info;
 	sockaddr_in sa;
 	std::string sai;
 	int32_t res;
-- 
2.43.0


From 0d992d8da7ce821466b37580d0767211ea4cdc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:00 +0000
Subject: [PATCH 67/78] fix: the vectorised Dilithium verification bounds the
 response vector

---
 CEX/DLTMBase.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CEX/DLTMBase.h b/CEX/DLTMBase.h
index eef6486..a97c053 100644
--- a/CEX/DLTMBase.h
+++ b/CEX/DLTMBase.h
@@ -669,10 +669,16 @@ public:
 			DLTMPolyMath::PolyChallenge(cp, Signature, T::DILITHIUM_TAU);
 			DLTMPolyMath::PolyNtt(cp);
 
-			// unpack z; shortness follows from unpacking
+			// unpack z and test that it is short; the range of the packed values is wider than the bound
 			for (i = 0; i < T::DILITHIUM_L; ++i)
 			{
 				DLTMPolyMath::PolyZUnpack(z[i], Signature, DILITHIUM_SEED_SIZE + i * T::DILITHIUM_POLYZ_PACKED_SIZE, T::DILITHIUM_GAMMA1);
+
+				if (DLTMPolyMath::PolyChkNorm(z[i], T::DILITHIUM_GAMMA1 - T::DILITHIUM_BETA) != 0)
+				{
+					res = false;
+				}
+
 				DLTMPolyMath::PolyNtt(z[i]);
 			}
 		}
-- 
2.43.0


From d15adeb2c156893e3f577dcae4fab0b549e67c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:30 +0000
Subject: [PATCH 68/78] fix: the destructor of CSP does not write to a global
 all providers share

---
 CEX/CSP.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 00ef398..74c8d29 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -24,7 +24,6 @@ using Tools::MemoryTools;
 
 #if defined(CEX_OS_WINDOWS)
 #	pragma comment(lib, "crypt32.lib")
-	HCRYPTPROV m_hProvider = 0;
 #elif defined (CEX_OS_POSIX)
 #	if !defined(O_NOCTTY)
 #		define O_NOCTTY 0
@@ -53,10 +52,6 @@ CSP::~CSP()
 	{
 		m_pvdSelfTest.reset(nullptr);
 	}
-
-#if defined(CEX_OS_WINDOWS)
-	m_hProvider = 0;
-#endif
 }
 
 //~~~Public Functions~~~//
-- 
2.43.0


From d2ddae35099b64676e8ab5e7cec366618c24fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:18 +0000
Subject: [PATCH 69/78] fix: BCR, CSR and HCR lose their entropy provider, and
 what it holds, when a reset fails

---
 CEX/BCR.cpp | 4 ++--
 CEX/CSR.cpp | 4 ++--
 CEX/HCR.cpp | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6fe0564..51660a8 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -113,7 +113,7 @@ void BCR::Reset()
 	std::vector<uint8_t> nonce(ks.IVSize());
 
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_bcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,7 @@ void BCR::Reset()
 	// use the provider to generate the key
 	pvd->Generate(key);
 	pvd->Generate(nonce);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, nonce);
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 66854fa..4f331c7 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -110,7 +110,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void CSR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_csrState->ProviderType);
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_csrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -123,7 +123,7 @@ void CSR::Reset()
 	std::vector<uint8_t> cust(ks.IVSize());
 	pvd->Generate(key);
 	pvd->Generate(cust);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key, cust);
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index c80a3f7..d7e7db5 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -113,9 +113,9 @@ void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 void HCR::Reset()
 {
 	// initialize the random provider
-	Provider::IProvider* pvd = Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
+	std::unique_ptr<Provider::IProvider> pvd(Helper::ProviderFromName::GetInstance(m_hcrState->ProviderType == Providers::None ? 
 		Providers::CSP : 
-		m_hcrState->ProviderType);
+		m_hcrState->ProviderType));
 
 	if (!pvd->IsAvailable())
 	{
@@ -126,7 +126,7 @@ void HCR::Reset()
 	Cipher::SymmetricKeySize ks = m_rngGenerator->LegalKeySizes()[1];
 	std::vector<uint8_t> key(ks.KeySize());
 	pvd->Generate(key);
-	delete pvd;
+	pvd.reset(nullptr);
 
 	// initialize the drbg
 	Cipher::SymmetricKey kp(key);
-- 
2.43.0


From 8689cfdaae84caabdeb68424f3fe0ea058e109f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:00 +0000
Subject: [PATCH 70/78] fix: the asymmetric Generate functions lose a key when
 the allocation after it fails

---
 CEX/Dilithium.cpp   | 11 ++++++++---
 CEX/ECDH.cpp        | 22 ++++++++++++++++------
 CEX/ECDSA.cpp       | 22 ++++++++++++++++------
 CEX/Kyber.cpp       | 11 ++++++++---
 CEX/McEliece.cpp    | 11 ++++++++---
 CEX/SphincsPlus.cpp | 11 ++++++++---
 CEX/XMSS.cpp        | 11 ++++++++---
 7 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index acc718b..50485ba 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -244,10 +244,15 @@ AsymmetricKeyPair* Dilithium::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::Dilithium, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_dilithiumState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 const void Dilithium::Initialize(AsymmetricKey* Key)
diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 49e4ce1..484c30a 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -194,10 +194,15 @@ AsymmetricKeyPair* ECDH::Generate()
 	m_rndGenerator->Generate(seed);
 	ECDHBase::Ed25519GenerateKeyPair(pk, sk, seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
@@ -212,10 +217,15 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 	ECDHBase::Ed25519GenerateKeyPair(pk, sk, Seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDH, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_ecdhState->Parameters)));
+
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
 
-	return new AsymmetricKeyPair(ask, apk);
+	return pair;
 }
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 2372f71..eefb889 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -153,10 +153,15 @@ AsymmetricKeyPair* ECDSA::Generate()
 	m_rndGenerator->Generate(seed);
 	ECDSABase::GenerateKeyPair(pk, sk, seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 AsymmetricKeyPair* ECDSA::Generate(std::vector<uint8_t> &Seed)
@@ -172,10 +177,15 @@ AsymmetricKeyPair* ECDSA::Generate(std::vector<uint8_t> &Seed)
 
 	ECDSABase::GenerateKeyPair(pk, sk, Seed, m_rndDigest);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::ECDSA, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_ecdsaState->Parameters)));
+
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
 
-	return new AsymmetricKeyPair(ask, apk);
+	return pair;
 }
 
 const void ECDSA::Initialize(AsymmetricKey* Key)
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 0e1a699..bc4f5d5 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -424,10 +424,15 @@ AsymmetricKeyPair* Kyber::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::Kyber, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_kyberState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 void Kyber::Initialize(AsymmetricKey* Key)
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 62b1376..aa5452e 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -446,10 +446,15 @@ AsymmetricKeyPair* McEliece::Generate()
 		}
 	}
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPublicKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::McEliece, AsymmetricKeyTypes::CipherPrivateKey, static_cast<AsymmetricParameters>(m_mpkcState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 void McEliece::Initialize(AsymmetricKey* Key)
diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index abc1061..bec6e25 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -270,10 +270,15 @@ AsymmetricKeyPair* SphincsPlus::Generate()
 	}
 
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::SphincsPlus, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_sphincsState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 const void SphincsPlus::Initialize(AsymmetricKey* Key)
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index f206563..01fab2c 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -236,10 +236,15 @@ AsymmetricKeyPair* XMSS::Generate()
 
 	XMSSCore::Generate(pk, sk, m_rndGenerator, m_xmssState->Parameters);
 
-	AsymmetricKey* apk = new AsymmetricKey(pk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters));
-	AsymmetricKey* ask = new AsymmetricKey(sk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters));
+	std::unique_ptr<AsymmetricKey> apk(new AsymmetricKey(pk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePublicKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters)));
+	std::unique_ptr<AsymmetricKey> ask(new AsymmetricKey(sk, AsymmetricPrimitives::XMSS, AsymmetricKeyTypes::SignaturePrivateKey, static_cast<AsymmetricParameters>(m_xmssState->Parameters)));
 
-	return new AsymmetricKeyPair(ask, apk);
+	// the pair owns the keys once it exists
+	AsymmetricKeyPair* pair = new AsymmetricKeyPair(ask.get(), apk.get());
+	ask.release();
+	apk.release();
+
+	return pair;
 }
 
 const void XMSS::Initialize(AsymmetricKey* Key)
-- 
2.43.0


From 28b47edf50fb90bf3b2cc134cfd0a2f6160ddce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:03 +0000
Subject: [PATCH 71/78] fix: ECDH key generation hashes what a failed call left
 in the digest

---
 CEX/ECDHBase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/ECDHBase.cpp b/CEX/ECDHBase.cpp
index 4ddde5d..8241ef3 100644
--- a/CEX/ECDHBase.cpp
+++ b/CEX/ECDHBase.cpp
@@ -18,6 +18,8 @@ void ECDHBase::Ed25519GenerateKeyPair(std::vector<uint8_t> &PublicKey, std::vect
 {
 	std::vector<uint8_t> tseed(64);
 
+	// a call that failed may have left the digest half way
+	Digest->Reset();
 	Digest->Compute(Seed, tseed);
 	MemoryTools::Copy(tseed, 0, PrivateKey, 0, EC25519::EC25519_SEED_SIZE);
 	EC25519::ScalarmultCurve25519Ref10Base(PublicKey, PrivateKey);
-- 
2.43.0


From dbc96c6be4a83fc8836de54e8622b2f2ace59f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:16 +0000
Subject: [PATCH 72/78] fix: the tag accessors of seven ciphers write past a
 secure vector that is not sized

---
 CEX/CSX512.cpp    | 2 +-
 CEX/ChaChaP20.cpp | 2 +-
 CEX/HBA.cpp       | 2 +-
 CEX/RCS.cpp       | 2 +-
 CEX/RWS.cpp       | 2 +-
 CEX/TSX1024.cpp   | 2 +-
 CEX/TSX256.cpp    | 2 +-
 CEX/TSX512.cpp    | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 043f116..d9b2f02 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -293,7 +293,7 @@ const void CSX512::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("CSX512"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_csx512State->MacTag, 0, Output, 0, m_csx512State->MacTag.size());
+	SecureInsert(m_csx512State->MacTag, 0, Output, 0, m_csx512State->MacTag.size());
 }
 
 const size_t CSX512::TagSize()
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index faf0ac4..05b8495 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -303,7 +303,7 @@ const void ChaChaP20::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("ChaChaP20"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_csx256State->MacTag, 0, Output, 0, m_csx256State->MacTag.size());
+	SecureInsert(m_csx256State->MacTag, 0, Output, 0, m_csx256State->MacTag.size());
 }
 
 const size_t ChaChaP20::TagSize()
diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 6b62a55..82ce90f 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -174,7 +174,7 @@ const std::vector<uint8_t> HBA::Tag()
 
 const void HBA::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_hbaState->MacTag, 0, Output, 0, m_hbaState->MacTag.size());
+	SecureInsert(m_hbaState->MacTag, 0, Output, 0, m_hbaState->MacTag.size());
 }
 
 const size_t HBA::TagSize()
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 7e21590..eabb9ac 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -375,7 +375,7 @@ const void RCS::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("RCS"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_rcsState->MacTag, 0, Output, 0, m_rcsState->MacTag.size());
+	SecureInsert(m_rcsState->MacTag, 0, Output, 0, m_rcsState->MacTag.size());
 }
 
 const size_t RCS::TagSize()
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 216f9e5..470bb68 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -333,7 +333,7 @@ const void RWS::Tag(SecureVector<uint8_t> &Output)
 		throw CryptoSymmetricException(std::string("RCS"), std::string("Tag"), std::string("The cipher is not initialized for authentication or has not run!"), ErrorCodes::NotInitialized);
 	}
 
-	SecureCopy(m_rwsState->MacTag, 0, Output, 0, m_rwsState->MacTag.size());
+	SecureInsert(m_rwsState->MacTag, 0, Output, 0, m_rwsState->MacTag.size());
 }
 
 const size_t RWS::TagSize()
diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index a079fed..7dae384 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -178,7 +178,7 @@ const std::vector<uint8_t> TSX1024::Tag()
 
 const void TSX1024::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx1024State->MacTag, 0, Output, 0, m_tsx1024State->MacTag.size());
+	SecureInsert(m_tsx1024State->MacTag, 0, Output, 0, m_tsx1024State->MacTag.size());
 }
 
 const size_t TSX1024::TagSize()
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..67040ee 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -179,7 +179,7 @@ const std::vector<uint8_t> TSX256::Tag()
 
 const void TSX256::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx256State->MacTag, 0, Output, 0, m_tsx256State->MacTag.size());
+	SecureInsert(m_tsx256State->MacTag, 0, Output, 0, m_tsx256State->MacTag.size());
 }
 
 const size_t TSX256::TagSize()
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 7f0c0bf..88c8ed7 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -178,7 +178,7 @@ const std::vector<uint8_t> TSX512::Tag()
 
 const void TSX512::Tag(SecureVector<uint8_t> &Output)
 {
-	SecureCopy(m_tsx512State->MacTag, 0, Output, 0, m_tsx512State->MacTag.size());
+	SecureInsert(m_tsx512State->MacTag, 0, Output, 0, m_tsx512State->MacTag.size());
 }
 
 const size_t TSX512::TagSize()
-- 
2.43.0


From f9591fab55eac15c6289f8c4074e70c477c9561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:54 +0000
Subject: [PATCH 73/78] fix: a construction that fails destroys the object it
 was given

The cipher modes, HMAC, GMAC, KDF2, BCG, CSG, HCG and CipherStream took
the object of their user into a unique_ptr before the last member that
allocates. When that allocation failed the object was destroyed, although
it belongs to the caller.
---
 CEX/BCG.cpp          |  4 +++-
 CEX/CBC.cpp          |  6 ++++--
 CEX/CFB.cpp          |  6 ++++--
 CEX/CSG.cpp          |  4 +++-
 CEX/CTR.cpp          |  6 ++++--
 CEX/CipherStream.cpp | 15 +++++++++++----
 CEX/ECB.cpp          |  6 ++++--
 CEX/GMAC.cpp         |  4 +++-
 CEX/HCG.cpp          |  4 +++-
 CEX/HMAC.cpp         |  6 ++++--
 CEX/ICM.cpp          |  6 ++++--
 CEX/KDF2.cpp         |  4 +++-
 CEX/OFB.cpp          |  6 ++++--
 13 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index 9e35e45..ea904fd 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -121,11 +121,13 @@ BCG::BCG(IProvider* Provider, bool Parallel)
 		MAX_REQUEST,
 		MAX_THRESHOLD),
 	m_bcgProvider(Provider != nullptr ? 
-		Provider :
+		nullptr :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::BCG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
 	m_bcgState(new BcgState(DEF_RESEED, false, Parallel)),
 	m_parallelProfile(BLOCK_SIZE, true, RESERVE_CACHE, false)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_bcgProvider.reset(Provider);
 }
 
 BCG::~BCG()
diff --git a/CEX/CBC.cpp b/CEX/CBC.cpp
index 966c599..747da9b 100644
--- a/CEX/CBC.cpp
+++ b/CEX/CBC.cpp
@@ -60,10 +60,12 @@ CBC::CBC(IBlockCipher* Cipher)
 	:
 	m_cbcState(new CbcState(false)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+		nullptr : 
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CBC), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 CBC::~CBC()
diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..3133005 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -63,10 +63,12 @@ CFB::CFB(IBlockCipher* Cipher, size_t RegisterSize)
 	:
 	m_cfbState(new CfbState(false, RegisterSize)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+		nullptr :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CFB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(m_blockCipher->BlockSize(), false, m_blockCipher->StateCacheSize(), true)
+	m_parallelProfile(Cipher->BlockSize(), false, Cipher->StateCacheSize(), true)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 CFB::~CFB()
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index aabb27f..131a724 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -158,7 +158,7 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-		m_csgProvider(Provider != nullptr ? Provider :
+		m_csgProvider(Provider != nullptr ? nullptr :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::CSG), std::string("Constructor"), std::string("The provider can not be null!"), ErrorCodes::IllegalOperation)),
 		m_csgState(new CsgState(
 			ShakeModeType,
@@ -169,6 +169,8 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			DEF_RESEED, 
 			false))
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_csgProvider.reset(Provider);
 }
 
 CSG::~CSG()
diff --git a/CEX/CTR.cpp b/CEX/CTR.cpp
index 6267d2e..4bd185d 100644
--- a/CEX/CTR.cpp
+++ b/CEX/CTR.cpp
@@ -59,10 +59,12 @@ CTR::CTR(IBlockCipher* Cipher)
 	:
 	m_ctrState(new CtrState(false)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+		nullptr : 
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::CTR), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 CTR::~CTR()
diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 1898c1d..38b07bb 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -65,16 +65,23 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	:
 	m_cipherState(new CipherState(((Cipher != nullptr && (Cipher->Enumeral() == CipherModes::CTR || Cipher->Enumeral() == CipherModes::ICM)) ? true : false), false)),
-	m_cipherEngine(Cipher != nullptr ? Cipher :
+	m_cipherEngine(Cipher != nullptr ? nullptr :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(Padding),
-	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
+	m_cipherPadding(nullptr),
+	m_legalKeySizes(Cipher->LegalKeySizes())
 {
-	if (m_cipherPadding == nullptr && !m_cipherState->CounterMode)
+	if (Padding == nullptr && !m_cipherState->CounterMode)
 	{
 		m_cipherPadding.reset(new Cipher::Block::Padding::X923);
 		m_cipherState->DestroyPadding = true;
 	}
+	else
+	{
+		m_cipherPadding.reset(Padding);
+	}
+
+	// the objects belong to the caller until the construction can no longer fail
+	m_cipherEngine.reset(Cipher);
 }
 
 CipherStream::~CipherStream()
diff --git a/CEX/ECB.cpp b/CEX/ECB.cpp
index c746ef8..3ac613e 100644
--- a/CEX/ECB.cpp
+++ b/CEX/ECB.cpp
@@ -59,10 +59,12 @@ ECB::ECB(IBlockCipher* Cipher)
 	:
 	m_ecbState(new EcbState(false)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+		nullptr :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::ECB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 ECB::~ECB()
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 33b112f..aa5781a 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -109,10 +109,12 @@ GMAC::GMAC(IBlockCipher* Cipher)
 		MINSALT_LENGTH,
 #endif
 		CMUL::CMUL_BLOCK_SIZE),
-	m_blockCipher(Cipher != nullptr ? Cipher :
+	m_blockCipher(Cipher != nullptr ? nullptr :
 		throw CryptoMacException(std::string("GMAC"), std::string("Constructor"), std::string("The cipher can not be null!"), ErrorCodes::IllegalOperation)),
 	m_gmacState(new GmacState(false))
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 GMAC::~GMAC()
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 813af02..9dd56aa 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -125,9 +125,11 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
-	m_hcgProvider(Provider),
+	m_hcgProvider(nullptr),
 	m_hcgState(new HcgState(m_hcgGenerator->BlockSize(), DEF_RESEED, false))
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_hcgProvider.reset(Provider);
 }
 
 HCG::~HCG()
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index d1231ea..c8ff389 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -115,10 +115,12 @@ HMAC::HMAC(IDigest* Digest)
 		MINSALT_LENGTH,
 #endif
 		(Digest != nullptr ? Digest->DigestSize() : 0)),
-	m_hmacGenerator(Digest != nullptr ? Digest :
+	m_hmacGenerator(Digest != nullptr ? nullptr :
 		throw CryptoMacException(std::string("HMAC"), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
-	m_hmacState(new HmacState(m_hmacGenerator->BlockSize(), m_hmacGenerator->DigestSize(), false))
+	m_hmacState(new HmacState(Digest->BlockSize(), Digest->DigestSize(), false))
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_hmacGenerator.reset(Digest);
 }
 
 HMAC::~HMAC()
diff --git a/CEX/ICM.cpp b/CEX/ICM.cpp
index 7030c51..b0427ff 100644
--- a/CEX/ICM.cpp
+++ b/CEX/ICM.cpp
@@ -59,10 +59,12 @@ ICM::ICM(IBlockCipher* Cipher)
 	:
 	m_icmState(new IcmState(false)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher : 
+		nullptr : 
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::ICM), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(BLOCK_SIZE, true, m_blockCipher->StateCacheSize(), true)
+	m_parallelProfile(BLOCK_SIZE, true, Cipher->StateCacheSize(), true)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 ICM::~ICM()
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 4acc1f4..561afea 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -91,10 +91,12 @@ KDF2::KDF2(IDigest* Digest)
 			SymmetricKeySize(Digest->BlockSize(), 0, Digest->DigestSize()),
 			SymmetricKeySize(Digest->BlockSize(), Digest->BlockSize(), Digest->DigestSize())} :
 			std::vector<SymmetricKeySize>(0))),
-	m_kdf2Generator(Digest != nullptr ? Digest :
+	m_kdf2Generator(Digest != nullptr ? nullptr :
 		throw CryptoKdfException(std::string("KDF2"), std::string("Constructor"), std::string("The digest instance is not supported!"), ErrorCodes::IllegalOperation)),
 	m_kdf2State(new Kdf2State(0, 0, false))
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_kdf2Generator.reset(Digest);
 }
 
 KDF2::~KDF2()
diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 792bd38..d0f5981 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -61,10 +61,12 @@ OFB::OFB(IBlockCipher* Cipher)
 	:
 	m_ofbState(new OfbState(false)),
 	m_blockCipher(Cipher != nullptr ? 
-		Cipher :
+		nullptr :
 		throw CryptoCipherModeException(CipherModeConvert::ToName(CipherModes::OFB), std::string("Constructor"), std::string("The cipher type can not be null!"), ErrorCodes::IllegalOperation)),
-	m_parallelProfile(m_blockCipher->BlockSize(), false, BLOCK_SIZE, false, 1)
+	m_parallelProfile(Cipher->BlockSize(), false, BLOCK_SIZE, false, 1)
 {
+	// the object belongs to the caller until the construction can no longer fail
+	m_blockCipher.reset(Cipher);
 }
 
 OFB::~OFB()
-- 
2.43.0


From b099ffadc733845750c4eda848489fb06c0463ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:48 +0000
Subject: [PATCH 74/78] fix: CMAC, GMAC, HMAC and Poly1305 write a code past a
 secure vector that is too small

Finalize with a standard vector refuses an output without room for the
code; the overload for a secure vector wrote to it.
---
 CEX/CMAC.cpp     | 5 +++++
 CEX/GMAC.cpp     | 5 +++++
 CEX/HMAC.cpp     | 5 +++++
 CEX/Poly1305.cpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..272fa03 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -181,6 +181,11 @@ size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 	Reset();
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index aa5781a..bf2737b 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -189,6 +189,11 @@ size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index c8ff389..9c70089 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -193,6 +193,11 @@ size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..1dd8047 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -186,6 +186,11 @@ size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if ((Output.size() - OutOffset) < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
-- 
2.43.0


From a183bcf1c2cbc57e02ea21095d2843d4a46bd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:27 +0000
Subject: [PATCH 75/78] fix: HKDF, KDF2, PBKDF2 and HBA mix a key with what a
 failed initialization left behind

They cleared their state before taking a key only when they were
initialised. After an initialization that failed half way (a salt that
is too small, an allocation that failed) the salt, the information string
or the end of the key remained and became part of the next key.
---
 CEX/HBA.cpp    | 9 +++------
 CEX/HKDF.cpp   | 6 ++----
 CEX/KDF2.cpp   | 6 ++----
 CEX/PBKDF2.cpp | 6 ++----
 4 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 82ce90f..af9eaa2 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -210,12 +210,9 @@ void HBA::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		}
 	}
 
-	// reset for a new key
-	if (IsInitialized() == true)
-	{
-		m_hbaState->Reset();
-		m_macAuthenticator->Reset();
-	}
+	// reset for a new key; also clears what an initialization that failed has left behind
+	m_hbaState->Reset();
+	m_macAuthenticator->Reset();
 
 	// set up the state members
 	m_hbaState->Authenticator = static_cast<StreamAuthenticators>(m_macAuthenticator->Enumeral());
diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index ef2e409..383335c 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -226,10 +226,8 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
 	}
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 561afea..c0cc5d9 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -206,10 +206,8 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 09b9e14..367f051 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -214,10 +214,8 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
-	if (IsInitialized() == true)
-	{
-		Reset();
-	}
+	// also clears what an initialization that failed has left behind
+	Reset();
 
 	// add the key to the state
 	m_pbkdf2State->State.resize(Parameters.KeySizes().KeySize());
-- 
2.43.0


From 0987cd19f3d5972bba43f8903efecedf20abc58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 76/78] fix: RHX and SHX destroy the key derivation function of
 their user

The destructor kept its hands off a generator that was passed to the
constructor, but the unique_ptr that holds it did not.
---
 CEX/RHX.cpp | 5 +++++
 CEX/SHX.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 1eb4d19..03d276e 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -100,6 +100,11 @@ RHX::~RHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		// the generator belongs to the caller
+		m_kdfGenerator.release();
+	}
 }
 
 //~~~Accessors~~~//
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index 4cc145f..d6ece9e 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -93,6 +93,11 @@ SHX::~SHX()
 			m_kdfGenerator.reset(nullptr);
 		}
 	}
+	else
+	{
+		// the generator belongs to the caller
+		m_kdfGenerator.release();
+	}
 }
 
 //~~~Accessors~~~//
-- 
2.43.0


From 6863c75e7e6c9af3d47a51ec2a3b98b0b47a8902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:54 +0000
Subject: [PATCH 77/78] fix: SecureRandom and ECP write random bytes past an
 output that is too small

The other generators refuse a request for more bytes than there is room
for behind the offset; these overloads wrote them.
---
 CEX/ECP.cpp          |  4 ++++
 CEX/SecureRandom.cpp | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index 9defa3c..5a10ba1 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -105,6 +105,10 @@ void ECP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
+	if ((Output.size() - Offset) < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
 	if (FipsTest() == false)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider has failed the self test!"), ErrorCodes::InvalidState);
diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 1b71d8c..d3a3b6b 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -126,6 +126,11 @@ std::vector<uint8_t> SecureRandom::Generate(size_t Length)
 
 void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if ((Output.size() - Offset) < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
@@ -159,6 +164,11 @@ void SecureRandom::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t
 
 void SecureRandom::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
+	if ((Output.size() - Offset) < Length)
+	{
+		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	const size_t BUFLEN = m_scrState->Buffer.size() - m_scrState->Position;
 
 	if (Length != 0)
-- 
2.43.0


From 6e346d863441af816fb17741f6fd44d9b2428927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:33 +0000
Subject: [PATCH 78/78] fix: SHA2 tree digests of different messages collide,
 leaves without buffered input were not finalized

---
 CEX/SHA2256.cpp | 18 ++++++------------
 CEX/SHA2512.cpp | 16 +++++-----------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 8225ce1..f62bbe7 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -173,18 +173,12 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 			MemoryTools::Clear(m_msgBuffer, m_msgLength, m_msgBuffer.size() - m_msgLength);
 		}
 
-		// process buffer
-		if (m_msgLength != 0)
+		// finalize every leaf; one left open takes the same blocks from the message as from the padding of a shorter message
+		for (bctr = 0; bctr < m_dgtState.size(); ++bctr)
 		{
-			bctr = 0;
-
-			while (m_msgLength != 0)
-			{
-				const size_t MSGRMD = (m_msgLength >= SHA2::SHA2256_RATE_SIZE) ? SHA2::SHA2256_RATE_SIZE : m_msgLength;
-				HashFinal(m_msgBuffer, bctr * SHA2::SHA2256_RATE_SIZE, MSGRMD, m_dgtState[bctr]);
-				m_msgLength -= MSGRMD;
-				++bctr;
-			}
+			const size_t MSGRMD = (m_msgLength >= SHA2::SHA2256_RATE_SIZE) ? SHA2::SHA2256_RATE_SIZE : m_msgLength;
+			HashFinal(m_msgBuffer, bctr * SHA2::SHA2256_RATE_SIZE, MSGRMD, m_dgtState[bctr]);
+			m_msgLength -= MSGRMD;
 		}
 
 		// initialize root state
@@ -398,7 +392,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index 4662742..66b7e8d 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -176,18 +176,12 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 			MemoryTools::Clear(m_msgBuffer, m_msgLength, m_msgBuffer.size() - m_msgLength);
 		}
 
-		// process buffer
-		if (m_msgLength != 0)
+		// finalize every leaf; one left open takes the same blocks from the message as from the padding of a shorter message
+		for (bctr = 0; bctr < m_dgtState.size(); ++bctr)
 		{
-			bctr = 0;
-
-			while (m_msgLength != 0)
-			{
-				const size_t MSGRMD = (m_msgLength >= SHA2::SHA2512_RATE_SIZE) ? SHA2::SHA2512_RATE_SIZE : m_msgLength;
-				HashFinal(m_msgBuffer, bctr * SHA2::SHA2512_RATE_SIZE, MSGRMD, m_dgtState[bctr]);
-				m_msgLength -= MSGRMD;
-				++bctr;
-			}
+			const size_t MSGRMD = (m_msgLength >= SHA2::SHA2512_RATE_SIZE) ? SHA2::SHA2512_RATE_SIZE : m_msgLength;
+			HashFinal(m_msgBuffer, bctr * SHA2::SHA2512_RATE_SIZE, MSGRMD, m_dgtState[bctr]);
+			m_msgLength -= MSGRMD;
 		}
 
 		// initialize root state
-- 
2.43.0

