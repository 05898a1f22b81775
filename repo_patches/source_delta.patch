From 1b634913fb848ebfd95ccbc6fa44fb2808aebe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 01/36] fix: Interval equality compares the upper bounds

---
 include/dspbb/Utility/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Utility/Interval.hpp b/include/dspbb/Utility/Interval.hpp
index 8a6cfdf..1bc2422 100644
--- a/include/dspbb/Utility/Interval.hpp
+++ b/include/dspbb/Utility/Interval.hpp
@@ -37,7 +37,7 @@ Interval<T>& operator-=(Interval<T>& lhs, T rhs) {
 
 template <class T>
 bool operator==(const Interval<T>& lhs, const Interval<T>& rhs) {
-	return lhs.first == rhs.first && lhs.last && rhs.last;
+	return lhs.first == rhs.first && lhs.last == rhs.last;
 }
 
 template <class T>
-- 
2.43.0


From 8a4cec33f50a7ae64aee81a64dd263876e66f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 02/36] fix: FactoredPolynomial assignment operators return
 *this

---
 include/dspbb/Math/Polynomials.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index bdcc2ef..544e15f 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -173,6 +173,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(FactoredPolynomial&& rhs
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
 	rhs.m_real = {};
 	rhs.m_complex = {};
+	return *this;
 }
 
 template <class T>
@@ -180,6 +181,7 @@ FactoredPolynomial<T>& FactoredPolynomial<T>::operator=(const FactoredPolynomial
 	m_mem = rhs.m_mem,
 	m_real = { m_mem.data(), rhs.m_real.size() },
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + rhs.m_real.size()), rhs.m_complex.size() };
+	return *this;
 }
 
 
-- 
2.43.0


From aa56b92c079675b466ca06a38a997d376397ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 03/36] fix: FactoredPolynomial::resize keeps complex pairs
 when adding real roots

---
 include/dspbb/Math/Polynomials.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Polynomials.hpp b/include/dspbb/Math/Polynomials.hpp
index 544e15f..e828b90 100644
--- a/include/dspbb/Math/Polynomials.hpp
+++ b/include/dspbb/Math/Polynomials.hpp
@@ -222,7 +222,10 @@ void FactoredPolynomial<T>::resize(size_t numRealRoots, size_t numComplexPairs,
 	}
 	m_mem.resize(numCoeffs);
 	if (currentRealRoots < numRealRoots) {
-		std::move_backward(m_mem.begin() + currentRealRoots, m_mem.begin() + (numCoeffs - numRealRoots), m_mem.end());
+		const size_t numKeptCoeffs = 2 * std::min(currentComplexPairs, numComplexPairs);
+		std::move_backward(m_mem.begin() + currentRealRoots,
+						   m_mem.begin() + currentRealRoots + numKeptCoeffs,
+						   m_mem.begin() + numRealRoots + numKeptCoeffs);
 	}
 	m_real = { m_mem.data(), numRealRoots };
 	m_complex = { reinterpret_cast<std::complex<T>*>(m_mem.data() + numRealRoots), numComplexPairs };
-- 
2.43.0


From 16893a66a2eba66c139176502691fd7f1175ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 04/36] fix: ShiftResponse writes the center tap when used out
 of place

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index 7686214..a46272d 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -43,6 +43,9 @@ void ShiftResponse(SignalR&& moved, const SignalT& filter, U normalizedFrequency
 		moved[i] = c * filter[i];
 		moved[size - i - 1] = c * filter[size - i - 1];
 	}
+	if (size % 2 == 1) {
+		moved[size / 2] = filter[size / 2];
+	}
 	moved *= typename signal_traits<SignalT>::type(2);
 }
 
-- 
2.43.0


From 1ab9fccdd92aa2d43088f45db4e9d579ff5bc436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 05/36] fix: CentralMoment of even order above four has no
 negative terms

---
 include/dspbb/Math/Statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Statistics.hpp b/include/dspbb/Math/Statistics.hpp
index 503636e..755ba25 100644
--- a/include/dspbb/Math/Statistics.hpp
+++ b/include/dspbb/Math/Statistics.hpp
@@ -85,7 +85,7 @@ auto CentralMoment(const SignalT& signal, size_t k, U mean) {
 		using T = decltype(mean); // Must be a scalar.
 		using V = std::decay_t<decltype(a)>; // May be SIMD vector type.
 		const auto d = a - mean;
-		return d * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
+		return (k % 2 == 0 ? V(kernels::math_functions::abs(d)) : V(d)) * kernels::math_functions::pow(kernels::math_functions::abs(d), V(T(k) - T(1)));
 	};
 
 	const T den = T(signal.size());
-- 
2.43.0


From b2d405bc31cd96e57ec23885d0c15730ebd1f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 06/36] fix: sawtooth and PWM waves are periodic for negative
 phases

---
 include/dspbb/Generators/Waveforms.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Generators/Waveforms.hpp b/include/dspbb/Generators/Waveforms.hpp
index 56c715f..e1fc12e 100644
--- a/include/dspbb/Generators/Waveforms.hpp
+++ b/include/dspbb/Generators/Waveforms.hpp
@@ -44,8 +44,7 @@ namespace impl {
 
 	inline double Sawtooth(double phase, double tilt) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		const double length = unitPhase > tilt ? (1.0 - tilt) : tilt + std::numeric_limits<double>::denorm_min();
 		const double distance = std::abs(unitPhase - tilt);
 		const double value = 1.0 - distance / length;
@@ -54,8 +53,7 @@ namespace impl {
 
 	inline double Pwm(double phase, double fill) {
 		constexpr auto pi2 = 2.0 * pi_v<double>;
-		double intpart;
-		const double unitPhase = modf(phase / pi2, &intpart);
+		const double unitPhase = phase / pi2 - std::floor(phase / pi2);
 		return double(unitPhase < fill || fill >= 1.0);
 	}
 
-- 
2.43.0


From dd91eb5f0f8a2a48fa0146440303f8b879b1d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 07/36] fix: Interpolate writes zero where the filter does not
 overlap the input

---
 include/dspbb/Filtering/Resample.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/Resample.hpp b/include/dspbb/Filtering/Resample.hpp
index 8449a26..cb1c683 100644
--- a/include/dspbb/Filtering/Resample.hpp
+++ b/include/dspbb/Filtering/Resample.hpp
@@ -254,6 +254,9 @@ InterpolSuspensionPoint Interpolate(SignalR&& hrOutput,
 			const auto value = DotProduct(lrInputView, lrPhaseView);
 			hrOutput[hrOutputIdx - hrOffset] = value;
 		}
+		else {
+			hrOutput[hrOutputIdx - hrOffset] = 0;
+		}
 	}
 
 	return impl::FindInterpolSuspensionPoint(hrOutputIdx, polyphase.size_original(), polyphase.num_phases());
-- 
2.43.0


From f8ef02d2a1c3ba718663ddd79b92552706b101b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 08/36] fix: multiplying a Rational by a negative integer

---
 include/dspbb/Math/Rational.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index b87a102..2e43b60 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -61,9 +61,8 @@ constexpr Rational<T> operator-(const Rational<T>& lhs, T rhs) noexcept {
 template <class T>
 constexpr Rational<T> operator*(const Rational<T>& lhs, T rhs) noexcept {
 	const auto simplification = std::gcd(rhs, lhs.Denominator());
-	const auto sign = rhs < 0 ? T(-1) : T(1);
-	return { sign * lhs.Numerator() * (rhs / simplification),
-			 sign * lhs.Denominator() / simplification };
+	return { lhs.Numerator() * (rhs / simplification),
+			 lhs.Denominator() / simplification };
 }
 template <class T>
 constexpr Rational<T> operator/(const Rational<T>& lhs, T rhs) noexcept {
-- 
2.43.0


From 3501023df6417b67ecf5687faecada23e7b26ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 09/36] fix: floor, ceil and frac of negative Rationals

---
 include/dspbb/Math/Rational.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/Rational.hpp b/include/dspbb/Math/Rational.hpp
index 2e43b60..780a3cb 100644
--- a/include/dspbb/Math/Rational.hpp
+++ b/include/dspbb/Math/Rational.hpp
@@ -313,12 +313,14 @@ constexpr bool operator>=(S lhs, const Rational<T>& rhs) noexcept {
 
 template <class T>
 constexpr T ceil(const Rational<T>& rational) {
-	return (rational.Numerator() + rational.Denominator() - 1) / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return quotient * rational.Denominator() < rational.Numerator() ? quotient + 1 : quotient;
 }
 
 template <class T>
 constexpr T floor(const Rational<T>& rational) {
-	return rational.Numerator() / rational.Denominator();
+	const T quotient = rational.Numerator() / rational.Denominator();
+	return rational.Numerator() < quotient * rational.Denominator() ? quotient - 1 : quotient;
 }
 
 template <class T>
-- 
2.43.0


From 5876be1034b993b9e5b0302d0f8d92909cf851c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 10/36] fix: least squares design uses the requested grid size

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 21b6e39..15e7d0d 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -73,7 +73,7 @@ void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, Weigh
 	using T = remove_complex_t<R>;
 
 	const size_t filterLength = (coefficients.size() + 1) / 2;
-	gridSize = gridSize == 0 ? 4 * filterLength : std::min(filterLength, gridSize);
+	gridSize = gridSize == 0 ? 4 * filterLength : std::max(filterLength, gridSize);
 
 	const auto coefficientMatrix = impl::CoefficientMatrix<T>(filterLength, gridSize);
 	const auto weightMatrix = impl::WeightMatrix<T>(gridSize, weightFunc);
-- 
2.43.0


From 7d448ab8e796efc5e859c9b19aab66e65a68547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 11/36] fix: least squares Hilbert design forwards the grid
 size

---
 include/dspbb/Filtering/FIR.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 5d22050..50cf9a1 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -188,7 +188,7 @@ auto DesignFilter(SignalR&& out, const impl::windowed::HilbertDesc<WindowType>&
 template <class SignalR, class ParamType, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 auto DesignFilter(SignalR&& out, const impl::least_squares::HilbertDesc<ParamType>& desc) {
 	const ParamType transitionBand = desc.transitionWidth;
-	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1);
+	const auto halfband = Fir.Lowpass.LeastSquares.Cutoff(ParamType(0.5) - transitionBand, ParamType(0.5) + transitionBand).Weight(1, desc.transitionWeight, 1).Grid(desc.grid);
 	impl::FirFilterHilbert(out, halfband);
 }
 
-- 
2.43.0


From 2cb0ea64bbff1ef497cc5da6985131558a42243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 12/36] fix: CascadedBiquad::order is off by one

---
 include/dspbb/LTISystems/Systems.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index da11bd8..392630a 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -130,13 +130,13 @@ T CascadedBiquad<T>::operator()(const T& x) const {
 
 template <class T>
 size_t CascadedBiquad<T>::order() const {
-	size_t numOrder = 1;
-	size_t denOrder = 1;
+	size_t numOrder = 0;
+	size_t denOrder = 0;
 	for (auto& section : sections) {
 		numOrder += section.numOrder;
 		denOrder += section.denOrder;
 	}
-	return sections.empty() ? 0 : std::max(numOrder, denOrder);
+	return std::max(numOrder, denOrder);
 }
 
 template <class T>
-- 
2.43.0


From b96a08560593b4ffd99deb55e17c5c907348d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 13/36] fix: CascadedBiquad keeps the gain of a system without
 roots

---
 include/dspbb/Filtering/IIR/Realizations.hpp |  4 ++--
 include/dspbb/LTISystems/Systems.hpp         | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 9cbb372..6427400 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -203,13 +203,13 @@ private:
 
 template <class T>
 CascadedForm<T>::CascadedForm(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
 template <class T>
 void CascadedForm<T>::order(size_t order) {
-	const size_t numSections = 1 + (order + 1) / 2;
+	const size_t numSections = 1 + std::max(size_t(1), (order + 1) / 2);
 	m_sections.resize(numSections, { T(0), T(0), T(0) });
 }
 
diff --git a/include/dspbb/LTISystems/Systems.hpp b/include/dspbb/LTISystems/Systems.hpp
index 392630a..835be30 100644
--- a/include/dspbb/LTISystems/Systems.hpp
+++ b/include/dspbb/LTISystems/Systems.hpp
@@ -97,7 +97,7 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 	std::sort(zeroPolys.begin(), zeroPolys.end(), polyAscending);
 	std::sort(polePolys.begin(), polePolys.end(), polyAscending);
 
-	const size_t numSections = std::max(zeroPolys.size(), polePolys.size());
+	const size_t numSections = std::max({ size_t(1), zeroPolys.size(), polePolys.size() }); // At least one to hold the gain.
 	sections.resize(numSections);
 	for (size_t i = 0; i < zeroPolys.size(); ++i) {
 		sections[i].numerator = zeroPolys[i].second;
@@ -107,11 +107,9 @@ CascadedBiquad<T>::CascadedBiquad(const ZeroPoleGain<T, eDiscretization::DISCRET
 		sections[i].denominator = { polePolys[i].second[0], polePolys[i].second[1] };
 		sections[i].denOrder = polePolys[i].first;
 	}
-	if (!sections.empty()) {
-		sections.back().numerator[0] *= zpk.gain;
-		sections.back().numerator[1] *= zpk.gain;
-		sections.back().numerator[2] *= zpk.gain;
-	}
+	sections.back().numerator[0] *= zpk.gain;
+	sections.back().numerator[1] *= zpk.gain;
+	sections.back().numerator[2] *= zpk.gain;
 }
 
 template <class T>
-- 
2.43.0


From d6c8bec0ac1d85033390725913e7f124b78486f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 14/36] fix: central convolution of an empty signal is empty

---
 include/dspbb/Math/Convolution.hpp | 4 ++--
 include/dspbb/Math/OverlapAdd.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Math/Convolution.hpp b/include/dspbb/Math/Convolution.hpp
index 359ced7..3c57f37 100644
--- a/include/dspbb/Math/Convolution.hpp
+++ b/include/dspbb/Math/Convolution.hpp
@@ -74,7 +74,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_same_
 auto Convolution(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = std::min(std::max(size_t(1), u.size()), std::max(size_t(1), v.size())) - 1;
 	Convolution(out, u, v, offset, clearOut);
 }
 
@@ -100,7 +100,7 @@ auto Convolution(const SignalT& u, const SignalU& v, impl::ConvFull) {
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto Convolution(const SignalT& u, const SignalU& v, impl::ConvCentral) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	const size_t offset = std::min(u.size() - 1, v.size() - 1);
+	const size_t offset = std::min(std::max(size_t(1), u.size()), std::max(size_t(1), v.size())) - 1;
 	return Convolution(u, v, offset, length);
 }
 
diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 4e18b82..20988b4 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -178,7 +178,7 @@ template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_mutab
 void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0, bool clearOut = true) {
 	const size_t centralLength = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
 	assert(out.size() == centralLength && "Use ConvolutionLength to calculate output size properly.");
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = std::min(std::max(size_t(1), u.size()), std::max(size_t(1), v.size())) - 1;
 	OverlapAdd(out, u, v, offset, chunkSize, clearOut);
 }
 
@@ -205,7 +205,7 @@ auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvFull, size_t chunk
 template <class SignalT, class SignalU, std::enable_if_t<is_same_domain_v<SignalT, SignalU>, int> = 0>
 auto OverlapAdd(const SignalT& u, const SignalU& v, impl::ConvCentral, size_t chunkSize = 0) {
 	const size_t length = ConvolutionLength(u.size(), v.size(), CONV_CENTRAL);
-	size_t offset = std::min(u.size() - 1, v.size() - 1);
+	size_t offset = std::min(std::max(size_t(1), u.size()), std::max(size_t(1), v.size())) - 1;
 	return OverlapAdd(u, v, offset, length, chunkSize);
 }
 
-- 
2.43.0


From c77ccde996a626a332713e24a64d2f65d0313fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 15/36] fix: OverlapAdd accepts empty output, and thus single
 tap streaming filters

---
 include/dspbb/Math/OverlapAdd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Math/OverlapAdd.hpp b/include/dspbb/Math/OverlapAdd.hpp
index 20988b4..d6ad65e 100644
--- a/include/dspbb/Math/OverlapAdd.hpp
+++ b/include/dspbb/Math/OverlapAdd.hpp
@@ -119,6 +119,9 @@ namespace impl {
 
 template <class SignalR, class SignalT, class SignalU, std::enable_if_t<is_mutable_signal_v<SignalR> && is_same_domain_v<SignalR, SignalT, SignalU>, int> = 0>
 void OverlapAdd(SignalR&& out, const SignalT& u, const SignalU& v, size_t offset, size_t chunkSize = 0, bool clearOut = true) {
+	if (out.size() == 0) {
+		return;
+	}
 	if (u.size() < v.size()) {
 		return OverlapAdd(out, v, u, offset, chunkSize, clearOut);
 	}
-- 
2.43.0


From 296ea1f9de1f534e3b337a0f7072be123ab7bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 16/36] fix: DirectFormII normalises its feedback coefficients
 too

---
 include/dspbb/Filtering/IIR/Realizations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/IIR/Realizations.hpp b/include/dspbb/Filtering/IIR/Realizations.hpp
index 6427400..3e7362b 100644
--- a/include/dspbb/Filtering/IIR/Realizations.hpp
+++ b/include/dspbb/Filtering/IIR/Realizations.hpp
@@ -167,7 +167,7 @@ void DirectFormII<T>::feed(InIter first, InIter last, OutIter outFirst, const Di
 
 	while (first != last) {
 		const auto input = *first++;
-		const auto stateNext = input * normalization - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0));
+		const auto stateNext = (input - std::inner_product(recSec.begin(), recSec.end(), stateRecView.begin(), T(0))) * normalization;
 		std::move(++m_state.begin(), m_state.end(), m_state.begin());
 		*m_state.rbegin() = static_cast<T>(stateNext);
 		const auto output = static_cast<T>(std::inner_product(fwFull.begin(), fwFull.end(), stateFwView.begin(), T(0)));
-- 
2.43.0


From 8ef3da1196cc704a5402e92613c49a3bd740ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 17/36] fix: half-band to high-pass and band-pass transforms
 divided by zero at cut-off 0.5 and bandwidth 0.5

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 65ebd96..50e60de 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -104,8 +104,8 @@ DiscreteZeroPoleGain<T> Halfband2Highpass(const DiscreteZeroPoleGain<T>& system,
 	const T w = to * pi_v<T>;
 
 	const T s = -T(1);
-	const T a1 = std::cos(w) / (-1 + std::sin(w));
-	const T a0 = 1;
+	const T a1 = 1;
+	const T a0 = -(std::cos(w) / (1 + std::sin(w)));
 
 	return impl::MapZDomain(system, s, a0, a1);
 }
@@ -116,9 +116,9 @@ DiscreteZeroPoleGain<T> Halfband2Bandpass(const DiscreteZeroPoleGain<T>& system,
 	const T w2 = to2 * pi_v<T>;
 
 	const T s = -T(1);
-	const T a2 = -1 + 2 / (1 + std::tan((w1 - w2) / 2));
-	const T a1 = -((std::cos(w1) + std::cos(w2) + std::sin(w1) - std::sin(w2)) / (1 + std::sin(w1 - w2)));
-	const T a0 = 1;
+	const T a2 = 1;
+	const T a1 = (std::cos(w1) + std::cos(w2) - std::sin(w1) + std::sin(w2)) / (-1 + std::sin(w1 - w2));
+	const T a0 = -1 - 2 / (-1 + std::tan((w1 - w2) / 2));
 
 	return impl::MapZDomain(system, s, a0, a1, a2);
 }
-- 
2.43.0


From 3841d3df971a120d174cad928704b257fa4f8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 18/36] fix: band transforms of systems with more zeros than
 poles had a wrong gain

---
 include/dspbb/Filtering/IIR/BandTransforms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/IIR/BandTransforms.hpp b/include/dspbb/Filtering/IIR/BandTransforms.hpp
index 50e60de..0049d8a 100644
--- a/include/dspbb/Filtering/IIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/IIR/BandTransforms.hpp
@@ -5,6 +5,7 @@
 #include "../../Utility/Numbers.hpp"
 
 #include <complex>
+#include <cstddef>
 
 namespace dspbb {
 
@@ -39,7 +40,7 @@ namespace impl {
 		const auto rgain = [s, a1, a0](const T& p) {
 			return a1 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
@@ -74,7 +75,7 @@ namespace impl {
 		const auto rgain = [s, a2, a0](const T& p) {
 			return a2 * s - p * a0;
 		};
-		const size_t normGainExponent = system.poles.num_roots() - system.zeros.num_roots();
+		const ptrdiff_t normGainExponent = ptrdiff_t(system.poles.num_roots()) - ptrdiff_t(system.zeros.num_roots());
 		const T normGain = normGainExponent != 0 ? T(std::pow(a0, T(normGainExponent))) : T(1);
 
 		// Do transform
-- 
2.43.0


From 3ad07e7322928f1dbbb5d04552ffda13123054ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 19/36] fix: LGamma of single-precision signals was wrong next
 to values between 0.75 and 1.25

---
 include/dspbb/Kernels/Math.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 2cc1f25..b89a290 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <array>
 #include <cmath>
+#include <complex>
 #ifdef _MSC_VER
 	#pragma warning(push)
 	#pragma warning(disable : 4800 4244)
@@ -87,6 +89,25 @@ using xsimd::erfc;
 using xsimd::lgamma;
 using xsimd::tgamma;
 
+// Lane by lane evaluation
+namespace impl {
+	template <class T, class Arch, class Func>
+	xsimd::batch<T, Arch> lanewise(const xsimd::batch<T, Arch>& v, Func func) {
+		std::array<T, xsimd::batch<T, Arch>::size> lanes;
+		v.store_unaligned(lanes.data());
+		for (auto& lane : lanes) {
+			lane = func(lane);
+		}
+		return xsimd::batch<T, Arch>::load_unaligned(lanes.data());
+	}
+} // namespace impl
+
+// The vectorized single-precision lgamma corrupts lanes above 1.25 when another lane is between 0.75 and 1.25.
+template <class Arch>
+xsimd::batch<float, Arch> lgamma(const xsimd::batch<float, Arch>& v) {
+	return impl::lanewise(v, [](float lane) { return std::lgamma(lane); });
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From f3fb5f06420f0cd9ab06d3148df2343da467d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 20/36] fix: inverse functions of complex signals were not the
 principal values

---
 include/dspbb/Kernels/Math.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index b89a290..ab48c02 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -108,6 +108,24 @@ xsimd::batch<float, Arch> lgamma(const xsimd::batch<float, Arch>& v) {
 	return impl::lanewise(v, [](float lane) { return std::lgamma(lane); });
 }
 
+// The vectorized complex acosh is off by its sign in the lower half-plane, and all of these on the real or imaginary axis.
+template <class T, class Arch>
+xsimd::batch<std::complex<T>, Arch> acosh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lanewise(v, [](const std::complex<T>& lane) { return std::acosh(lane); });
+}
+template <class T, class Arch>
+xsimd::batch<std::complex<T>, Arch> asinh(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lanewise(v, [](const std::complex<T>& lane) { return std::asinh(lane); });
+}
+template <class T, class Arch>
+xsimd::batch<std::complex<T>, Arch> acos(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lanewise(v, [](const std::complex<T>& lane) { return std::acos(lane); });
+}
+template <class T, class Arch>
+xsimd::batch<std::complex<T>, Arch> asin(const xsimd::batch<std::complex<T>, Arch>& v) {
+	return impl::lanewise(v, [](const std::complex<T>& lane) { return std::asin(lane); });
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 6b3d499a5bf72b303b0e9534df7b868f162bfce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 21/36] fix: Pow gave zero for zero to the zeroth power in
 vectorized parts

---
 include/dspbb/Kernels/Math.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index ab48c02..9e7e7ba 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -126,6 +126,16 @@ xsimd::batch<std::complex<T>, Arch> asin(const xsimd::batch<std::complex<T>, Arc
 	return impl::lanewise(v, [](const std::complex<T>& lane) { return std::asin(lane); });
 }
 
+// The vectorized pow gives zero for zero to the zeroth power.
+template <class Arch>
+xsimd::batch<float, Arch> pow(const xsimd::batch<float, Arch>& base, const xsimd::batch<float, Arch>& power) {
+	return xsimd::select(power == xsimd::batch<float, Arch>(0.0f), xsimd::batch<float, Arch>(1.0f), xsimd::pow(base, power));
+}
+template <class Arch>
+xsimd::batch<double, Arch> pow(const xsimd::batch<double, Arch>& base, const xsimd::batch<double, Arch>& power) {
+	return xsimd::select(power == xsimd::batch<double, Arch>(0.0), xsimd::batch<double, Arch>(1.0), xsimd::pow(base, power));
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 4bc7d082a6e2613f84c4d95bde8779c7477ad598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 22/36] fix: Arg of zeros was NaN in vectorized parts

---
 include/dspbb/Kernels/Math.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/dspbb/Kernels/Math.hpp b/include/dspbb/Kernels/Math.hpp
index 9e7e7ba..86136cf 100644
--- a/include/dspbb/Kernels/Math.hpp
+++ b/include/dspbb/Kernels/Math.hpp
@@ -136,6 +136,21 @@ xsimd::batch<double, Arch> pow(const xsimd::batch<double, Arch>& base, const xsi
 	return xsimd::select(power == xsimd::batch<double, Arch>(0.0), xsimd::batch<double, Arch>(1.0), xsimd::pow(base, power));
 }
 
+// The vectorized arg is NaN at zero.
+template <class Arch>
+xsimd::batch<float, Arch> arg(const xsimd::batch<float, Arch>& v) {
+	return impl::lanewise(v, [](float lane) { return std::arg(lane); });
+}
+template <class Arch>
+xsimd::batch<double, Arch> arg(const xsimd::batch<double, Arch>& v) {
+	return impl::lanewise(v, [](double lane) { return std::arg(lane); });
+}
+template <class T, class Arch>
+xsimd::batch<T, Arch> arg(const xsimd::batch<std::complex<T>, Arch>& v) {
+	const xsimd::batch<T, Arch> zero(T(0));
+	return xsimd::select(v.real() == zero && v.imag() == zero, zero, xsimd::arg(v));
+}
+
 // FMA
 namespace impl {
 	template <class V, std::enable_if_t<xsimd::is_batch<V>::value && std::is_scalar_v<typename xsimd::revert_simd_traits<V>::value_type>, int> = 0>
-- 
2.43.0


From 062b796a2ac1b5b042d8b7410b13541b13153f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 23/36] fix: windows of a single point were NaN or their edge
 value

---
 include/dspbb/Filtering/Windowing.hpp | 40 +++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/include/dspbb/Filtering/Windowing.hpp b/include/dspbb/Filtering/Windowing.hpp
index 3c28cf0..c7dde8b 100644
--- a/include/dspbb/Filtering/Windowing.hpp
+++ b/include/dspbb/Filtering/Windowing.hpp
@@ -40,10 +40,26 @@ T EnergyGain(const BasicSignal<T, Domain>& window) {
 //------------------------------------------------------------------------------
 // List of window functions.
 //------------------------------------------------------------------------------
+namespace impl {
+	// A single point is the peak of the window, it has no edges.
+	template <class SignalR>
+	bool IsSinglePointWindow(SignalR& out) {
+		using R = typename signal_traits<std::decay_t<SignalR>>::type;
+		if (out.size() != 1) {
+			return false;
+		}
+		out[0] = R(remove_complex_t<R>(1));
+		return true;
+	}
+} // namespace impl
+
 template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 void HammingWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 
 	LinSpace(out, U(0), U(2) * pi_v<U>, true);
 	Cos(out, out);
@@ -55,6 +71,9 @@ template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0
 void FlatTopWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 
 	U c0 = U(0.21557895);
 	U c1 = U(-0.41663158);
@@ -90,6 +109,9 @@ template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0
 void TriangularWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	LinSpace(out, U(0), U(2), true);
 	out -= U(1);
 	Abs(out, out);
@@ -101,6 +123,9 @@ template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0
 void BlackmanWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	LinSpace(out, U(0), U(2) * pi_v<U>, true);
 	std::for_each(out.begin(), out.end(), [&](R& k) {
 		const U kreal = std::real(k);
@@ -112,6 +137,9 @@ template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0
 void BlackmanHarrisWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	LinSpace(out, U(0), U(2) * pi_v<U>, true);
 	std::for_each(out.begin(), out.end(), [&](R& k) {
 		const U kreal = std::real(k);
@@ -123,6 +151,9 @@ template <class SignalR, class V, std::enable_if_t<is_mutable_signal_v<SignalR>,
 void GaussianWindow(SignalR&& out, V sigma = 1.f) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	const auto N = U(out.size());
 	const auto M = (N - U(1)) / U(2);
 	LinSpace(out, -M, M, true);
@@ -136,6 +167,9 @@ template <class SignalR, class V, std::enable_if_t<is_mutable_signal_v<SignalR>,
 void KaiserWindow(SignalR&& out, V alpha) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	LinSpace(out, -U(1), U(1), true);
 	std::for_each(out.begin(), out.end(), [&](R& k) {
 		const U kreal = std::real(k);
@@ -149,6 +183,9 @@ template <class SignalR, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0
 void LanczosWindow(SignalR&& out) {
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
 	using U = remove_complex_t<R>;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 	LinSpace(out, -pi_v<U>, pi_v<U>, true);
 	std::for_each(out.begin(), out.end(), [&](R& k) {
 		const U kreal = std::real(k);
@@ -174,6 +211,9 @@ namespace impl {
 template <class SignalR, class V, std::enable_if_t<is_mutable_signal_v<SignalR> && !is_complex_v<typename std::decay_t<SignalR>::value_type>, int> = 0>
 void DolphChebyshevWindow(SignalR&& out, V attenuation) {
 	using T = typename std::decay_t<SignalR>::value_type;
+	if (impl::IsSinglePointWindow(out)) {
+		return;
+	}
 
 	const size_t M = out.size() - 1;
 	const T beta = std::cosh(T(1) / M * std::acosh(T(1) / T(attenuation)));
-- 
2.43.0


From a27982e909e33bd1f25db00625f307fae3e3b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 24/36] fix: in-place spectrum shifts through views corrupted
 the data

---
 include/dspbb/Math/FFT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/FFT.hpp b/include/dspbb/Math/FFT.hpp
index 60245a6..def5298 100644
--- a/include/dspbb/Math/FFT.hpp
+++ b/include/dspbb/Math/FFT.hpp
@@ -192,7 +192,7 @@ namespace impl {
 	template <class SignalR, class SignalT, std::enable_if_t<is_same_domain_v<SignalR, SignalT>, int> = 0>
 	void BasicShift(SignalR&& out, const SignalT& in, size_t shift) {
 		assert(out.size() == in.size());
-		if (static_cast<const void*>(std::addressof(out)) == static_cast<const void*>(std::addressof(in))) {
+		if (static_cast<const void*>(out.data()) == static_cast<const void*>(in.data())) {
 			const auto first = out.begin();
 			const auto mid = out.begin() + shift;
 			const auto last = out.end();
-- 
2.43.0


From 224bd7f7b236ce93b79344ea95f8bee71f38f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 25/36] fix: mirrored and Hilbert responses of constant views
 did not compile

---
 include/dspbb/Filtering/FIR/BandTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/BandTransforms.hpp b/include/dspbb/Filtering/FIR/BandTransforms.hpp
index a46272d..e121ec4 100644
--- a/include/dspbb/Filtering/FIR/BandTransforms.hpp
+++ b/include/dspbb/Filtering/FIR/BandTransforms.hpp
@@ -15,7 +15,7 @@ template <class SignalR, class SignalT, std::enable_if_t<is_mutable_signal_v<Sig
 void MirrorResponse(SignalR&& mirrored, const SignalT& filter) {
 	assert(mirrored.size() == filter.size());
 	using R = typename signal_traits<std::decay_t<SignalR>>::type;
-	using T = typename signal_traits<std::decay_t<SignalT>>::type;
+	using T = std::remove_cv_t<typename signal_traits<std::decay_t<SignalT>>::type>;
 	T sign = T(1);
 	for (size_t i = 0; i < filter.size(); ++i, sign *= T(-1)) {
 		mirrored[i] = R(sign * filter[i]);
@@ -109,7 +109,7 @@ void HalfbandToHilbertEven(SignalR& out, const SignalT& halfband) {
 
 	using impl::kernelSize;
 	using R = typename std::decay_t<SignalR>::value_type;
-	using T = typename std::decay_t<SignalT>::value_type;
+	using T = std::remove_cv_t<typename std::decay_t<SignalT>::value_type>;
 	constexpr auto Domain = signal_traits<std::decay_t<SignalR>>::domain;
 	constexpr size_t kernelCenter = kernelSize / 2 - 1;
 	constexpr size_t maxSizeSingleStep = kernelSize - 1;
-- 
2.43.0


From 799d6065ef1354693d1e95b163a614fb41bbd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 26/36] fix: an early dip into the margin displaced the
 measured band edge

---
 include/dspbb/Filtering/MeasureFilter.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dspbb/Filtering/MeasureFilter.hpp b/include/dspbb/Filtering/MeasureFilter.hpp
index 50fb9b7..b3f5b81 100644
--- a/include/dspbb/Filtering/MeasureFilter.hpp
+++ b/include/dspbb/Filtering/MeasureFilter.hpp
@@ -93,12 +93,12 @@ namespace impl {
 
 			const T triggerThreshold = pass ? upperThreshold : lowerThreshold;
 			const T concludeThreshold = pass ? lowerThreshold : upperThreshold;
-			const auto triggerIt = std::find_if(it, spectrum.end(), [pass, triggerThreshold](const T& bin) {
-				return bin > triggerThreshold != pass;
-			});
 			const auto concludeIt = std::find_if(it, spectrum.end(), [pass, concludeThreshold](const T& bin) {
 				return bin > concludeThreshold != pass;
 			});
+			const auto triggerIt = std::find_if(std::make_reverse_iterator(concludeIt), std::make_reverse_iterator(it), [pass, triggerThreshold](const T& bin) {
+									   return bin > triggerThreshold == pass;
+								   }).base();
 
 			const size_t triggerIndex = triggerIt - spectrum.begin();
 			const size_t concludeIndex = concludeIt - spectrum.begin();
-- 
2.43.0


From b2562464a953d66e7e2f2def0b12dca6a26fcb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 27/36] fix: window functions could not replace signal windows
 in descriptions

---
 include/dspbb/Filtering/FIR/Descs.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dspbb/Filtering/FIR/Descs.hpp b/include/dspbb/Filtering/FIR/Descs.hpp
index c20dc8f..0549d98 100644
--- a/include/dspbb/Filtering/FIR/Descs.hpp
+++ b/include/dspbb/Filtering/FIR/Descs.hpp
@@ -33,7 +33,7 @@ namespace impl {
 				impl::ThrowIfNotNormalized(cutoffNew);
 				return Desc<NewParamType, WindowType>{ { std::move(cutoffNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { cutoff, std::move(windowNew) } };
 			}
@@ -63,7 +63,7 @@ namespace impl {
 				impl::ThrowIfNotSorted(lowerNew, upperNew);
 				return Desc<NewParamType, WindowType>{ { std::move(lowerNew), std::move(upperNew), window } };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return Desc<ParamType, NewWindowType>{ { lower, upper, std::move(windowNew) } };
 			}
@@ -89,7 +89,7 @@ namespace impl {
 			[[nodiscard]] auto Response(NewResponseFunc responseFuncNew) const {
 				return ArbitraryDesc<NewResponseFunc, WindowType>{ std::move(responseFuncNew), window };
 			}
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return ArbitraryDesc<ResponseFunc, NewWindowType>{ responseFunc, std::move(windowNew) };
 			}
@@ -103,7 +103,7 @@ namespace impl {
 		struct HilbertDesc {
 			WindowType window;
 
-			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType> && std::is_invocable_v<WindowType, BasicSignal<float, TIME_DOMAIN>&>, int> = 0>
+			template <class NewWindowType, std::enable_if_t<!is_signal_like_v<NewWindowType>, int> = 0>
 			[[nodiscard]] auto Window(NewWindowType windowNew) const {
 				return HilbertDesc<NewWindowType>{ std::move(windowNew) };
 			}
-- 
2.43.0


From 3d297492cc846d82abe9a89c130bb3309259e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 28/36] fix: Hilbert filters could not be designed into views

---
 include/dspbb/Filtering/FIR.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Filtering/FIR.hpp b/include/dspbb/Filtering/FIR.hpp
index 50cf9a1..4613a9c 100644
--- a/include/dspbb/Filtering/FIR.hpp
+++ b/include/dspbb/Filtering/FIR.hpp
@@ -167,7 +167,8 @@ namespace impl {
 	void FirFilterHilbert(SignalR&& out, const HalfbandDesc& halfbandDesc) {
 		if (out.size() % 2 == 0) {
 			const size_t halfbandSize = out.size() * 2 - 1;
-			std::decay_t<SignalR> halfband(halfbandSize);
+			using Traits = signal_traits<std::decay_t<SignalR>>;
+			BasicSignal<typename Traits::type, Traits::domain> halfband(halfbandSize);
 			DesignFilter(halfband, halfbandDesc);
 			fir::HalfbandToHilbertEven(out, halfband);
 		}
-- 
2.43.0


From 043f67d69d28e961a61006f7f4092c076ce9a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 29/36] fix: least squares designs of even size silently left a
 tap unwritten

---
 include/dspbb/Filtering/FIR/LeastSquares.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dspbb/Filtering/FIR/LeastSquares.hpp b/include/dspbb/Filtering/FIR/LeastSquares.hpp
index 15e7d0d..a5eb471 100644
--- a/include/dspbb/Filtering/FIR/LeastSquares.hpp
+++ b/include/dspbb/Filtering/FIR/LeastSquares.hpp
@@ -6,6 +6,8 @@
 #include <Eigen/Dense>
 #include <Eigen/QR>
 
+#include <cassert>
+
 namespace dspbb::fir {
 
 
@@ -69,6 +71,7 @@ namespace impl {
 
 template <class SignalR, class ResponseFunc, class WeightFunc, std::enable_if_t<is_mutable_signal_v<SignalR>, int> = 0>
 void KernelLeastSquares(SignalR&& coefficients, ResponseFunc responseFunc, WeightFunc weightFunc, size_t gridSize = 0) {
+	assert(coefficients.size() % 2 == 1);
 	using R = typename std::decay_t<SignalR>::value_type;
 	using T = remove_complex_t<R>;
 
-- 
2.43.0


From 2c6866f4f1c407c99d9cf117d520c1d25c172f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:24 +0000
Subject: [PATCH 30/36] fix: Carlson's RF of complex arguments multiplies
 roots, not arguments of roots

---
 include/dspbb/Math/EllipticFunctions.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 63e2829..5bf26f1 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -41,11 +41,11 @@ T CarlsonRF(T x, T y, T z) {
 	T lambdan = T(0);
 
 	while (Qn > std::abs(An)) {
-		const auto lambdan2 = lambdan * lambdan;
-		const auto l1 = std::sqrt(x * y + (x + y) * lambdan + lambdan2);
-		const auto l2 = std::sqrt(x * z + (x + z) * lambdan + lambdan2);
-		const auto l3 = std::sqrt(z * y + (z + y) * lambdan + lambdan2);
-		lambdan += l1 + l2 + l3;
+		// The product of roots is not the root of the product for complex arguments.
+		const auto rx = std::sqrt(x + lambdan);
+		const auto ry = std::sqrt(y + lambdan);
+		const auto rz = std::sqrt(z + lambdan);
+		lambdan += rx * ry + rx * rz + rz * ry;
 		x /= S(4);
 		y /= S(4);
 		z /= S(4);
-- 
2.43.0


From aa686e63e19934fbf4223aa5e61d87e0d18a3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 31/36] fix: inverse elliptic functions of values with negative
 real parts

---
 include/dspbb/Math/EllipticFunctions.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index 5bf26f1..c12fef7 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -234,11 +234,10 @@ auto EllipticDN(T1 x, T2 k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 T EllipticArcSN(T x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -247,7 +246,8 @@ T EllipticArcCN(T x, T k) {
 	const auto a = x * x;
 	const auto b = T(1);
 	const auto c = T(1) - k * k + k * k * x * x;
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x < T(0) ? T(2) * EllipticK(k) - u : u;
 }
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
@@ -261,11 +261,10 @@ T EllipticArcDN(T x, T k) {
 
 template <class T>
 std::complex<T> EllipticArcSN(std::complex<T> x, T k) {
-	const auto scale = x * x;
 	const auto a = T(1) - x * x;
 	const auto b = T(1) - k * k * x * x;
 	const auto c = T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	return x * CarlsonRF(a, b, c);
 }
 
 template <class T>
@@ -274,7 +273,8 @@ std::complex<T> EllipticArcCN(std::complex<T> x, T k) {
 	const auto a = x * x;
 	const auto b = T(1);
 	const auto c = T(1) - k * k + k * k * x * x;
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
+	return real(x) < T(0) ? T(2) * EllipticK(k) - u : u;
 }
 
 template <class T>
@@ -283,7 +283,8 @@ std::complex<T> EllipticArcDN(std::complex<T> x, T k) {
 	const auto a = k * k * x * x;
 	const auto b = k * k;
 	const auto c = k * k + x * x - T(1);
-	return std::sqrt(scale) * CarlsonRF(a, b, c);
+	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
+	return real(x) < T(0) ? std::complex<T>(T(0), T(2) * EllipticK(std::sqrt(T(1) - k * k))) - u : u;
 }
 
 template <class T1, class T2, std::enable_if_t<!is_complex_v<T1> && !is_complex_v<T2>, int> = 0>
-- 
2.43.0


From 5b107e48d31752dbdd7a603318c625da76b6726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:14 +0000
Subject: [PATCH 32/36] fix: elliptic functions of moduli above one

---
 include/dspbb/Math/EllipticFunctions.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index c12fef7..ea73686 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -157,11 +157,6 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 	if (kPrime < T(0)) {
 		kPrime = -kPrime;
 	}
-	if (kPrime > T(1)) {
-		xPrime *= kPrime;
-		factorSn /= kPrime;
-		kPrime = T(1) / kPrime;
-	}
 
 	if (xPrime > pi_v<T> / 2) {
 		const auto K = EllipticK(k);
@@ -178,6 +173,11 @@ std::tuple<T, T, T, T, T> EllipticReduceRange(const T x, const T k) {
 
 template <class T, std::enable_if_t<!is_complex_v<T>, int> = 0>
 std::tuple<T, T, T> EllipticSNCNDN(T x, T k) {
+	if (std::abs(k) > T(1)) { // Reciprocal modulus: CN and DN change places.
+		const auto [sn, cn, dn] = EllipticSNCNDN(k * x, T(1) / k);
+		return { sn / k, dn, cn };
+	}
+
 	const auto [xPrime, kPrime, factorSn, factorCn, factorDn] = EllipticReduceRange(x, k);
 
 	const T am = EllipticAM(xPrime, kPrime);
@@ -189,6 +189,11 @@ std::tuple<T, T, T> EllipticSNCNDN(T x, T k) {
 
 template <class T>
 auto EllipticSNCNDN(std::complex<T> x, T k) -> std::tuple<std::complex<T>, std::complex<T>, std::complex<T>> {
+	if (std::abs(k) > T(1)) { // Reciprocal modulus: CN and DN change places.
+		const auto [sn, cn, dn] = EllipticSNCNDN(k * x, T(1) / k);
+		return { sn / k, dn, cn };
+	}
+
 	const auto [snr, cnr, dnr] = EllipticSNCNDN(real(x), k);
 	const auto [sni, cni, dni] = EllipticSNCNDN(imag(x), std::sqrt(1 - k * k));
 
-- 
2.43.0


From 235d5edf599b7543fe4a2fe10d839aa5e3362d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 33/36] fix: elliptic functions of complex arguments and moduli
 of different types

---
 include/dspbb/Math/EllipticFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index ea73686..cf7ebdd 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -210,7 +210,7 @@ auto EllipticSNCNDN(T1 x, T2 k) -> std::tuple<T, T, T> {
 }
 
 template <class T1, class T2, class T = std::common_type_t<T1, T2>, std::enable_if_t<!is_complex_v<T1> && !is_complex_v<T2>, int> = 0>
-auto EllipticSNCNDN(std::complex<T1> x, T2 k) -> std::tuple<T, T, T> {
+auto EllipticSNCNDN(std::complex<T1> x, T2 k) -> std::tuple<std::complex<T>, std::complex<T>, std::complex<T>> {
 	return EllipticSNCNDN(std::complex<T>(x), T(k));
 }
 
-- 
2.43.0


From de83eaa361969f9cbfb3cac42f339845ac722d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 34/36] fix: inverse elliptic functions of negative imaginary
 values

---
 include/dspbb/Math/EllipticFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dspbb/Math/EllipticFunctions.hpp b/include/dspbb/Math/EllipticFunctions.hpp
index cf7ebdd..27f5e41 100644
--- a/include/dspbb/Math/EllipticFunctions.hpp
+++ b/include/dspbb/Math/EllipticFunctions.hpp
@@ -279,7 +279,7 @@ std::complex<T> EllipticArcCN(std::complex<T> x, T k) {
 	const auto b = T(1);
 	const auto c = T(1) - k * k + k * k * x * x;
 	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
-	return real(x) < T(0) ? T(2) * EllipticK(k) - u : u;
+	return real(x) < T(0) || (real(x) == T(0) && imag(x) < T(0)) ? T(2) * EllipticK(k) - u : u;
 }
 
 template <class T>
@@ -289,7 +289,7 @@ std::complex<T> EllipticArcDN(std::complex<T> x, T k) {
 	const auto b = k * k;
 	const auto c = k * k + x * x - T(1);
 	const auto u = std::sqrt(scale) * CarlsonRF(a, b, c);
-	return real(x) < T(0) ? std::complex<T>(T(0), T(2) * EllipticK(std::sqrt(T(1) - k * k))) - u : u;
+	return real(x) < T(0) || (real(x) == T(0) && imag(x) < T(0)) ? std::complex<T>(T(0), T(2) * EllipticK(std::sqrt(T(1) - k * k))) - u : u;
 }
 
 template <class T1, class T2, std::enable_if_t<!is_complex_v<T1> && !is_complex_v<T2>, int> = 0>
-- 
2.43.0


From c746e25ac7c6fa98e19f973e64aa76cbbd05523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 35/36] fix: Bisect lost the root of functions of small values

The product of the function's values underflowed to zero, so that the signs
seemed to differ.
---
 include/dspbb/Math/Solvers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 195b148..6d7aec0 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -10,7 +10,8 @@ T Bisect(Func func, T a, T b, T tolerance = T(0)) {
 	do {
 		const auto fa = func(a);
 		const auto fc = func(c);
-		if (fa * fc <= 0) {
+		// The product of small values would underflow.
+		if ((fa <= 0 && fc >= 0) || (fa >= 0 && fc <= 0)) {
 			b = c;
 		}
 		else {
-- 
2.43.0


From 8bbf90cf13c838547cddf0f80068279fb37af059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:11 +0000
Subject: [PATCH 36/36] fix: NewtonRaphson was NaN once it got to a multiple
 root

---
 include/dspbb/Math/Solvers.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dspbb/Math/Solvers.hpp b/include/dspbb/Math/Solvers.hpp
index 6d7aec0..fa98dfd 100644
--- a/include/dspbb/Math/Solvers.hpp
+++ b/include/dspbb/Math/Solvers.hpp
@@ -32,7 +32,11 @@ T NewtonRaphson(Func func, Derivative der, T x0, T tolerance = T(0)) {
 	T errPrev = err;
 	do {
 		x0 = x1;
-		x1 = x0 - func(x0) / der(x0);
+		const auto f0 = func(x0);
+		if (f0 == 0) {
+			return x0; // The derivative is zero as well at multiple roots.
+		}
+		x1 = x0 - f0 / der(x0);
 		errPrev = err;
 		err = std::abs(x1 - x0);
 	} while (err > tolerance && err < errPrev);
-- 
2.43.0

