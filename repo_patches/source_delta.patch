From b14a113a32046325b01b210206e1aeca18d01124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 01/40] fix: Math::multiplyExact(int, int) must also report
 negative overflow

---
 library/Java/Lang/Math/Math.cpp | 1090 +++++++++++++++----------------
 1 file changed, 545 insertions(+), 545 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..3a11e9b 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -1,546 +1,546 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "Math.hpp"
-#include "../ArithmeticException/ArithmeticException.hpp"
-#include "../AssertionError/AssertionError.hpp"
-
-using namespace Java::Lang;
-
-int Math::abs(int value) {
-	return value >= 0 ? value : -value;
-}
-
-float Math::abs(float value) {
-	return value >= 0 ? value : -value;
-}
-
-long Math::abs(long value) {
-	return value >= 0 ? value : -value;
-}
-
-double Math::abs(double value) {
-	if(Double::isNaN(value)) {
-		return Double::NaN;
-	}
-	
-	return value >= 0 ? value : -value;
-}
-
-double Math::acos(double value) {
-	return ::acos(value);
-}
-
-double Math::asin(double value) {
-	return ::asin(value);
-}
-
-double Math::atan(double value) {
-	return ::atan(value);
-}
-
-double Math::atan2(double coordinateX, double coordinateY) {
-	return ::atan2(coordinateX, coordinateY);
-}
-
-long Math::addExact(long valueA, long valueB) {
-	long result = valueA + valueB;
-	if (((valueA ^ result) & (valueB ^ result)) < 0) {
-		throw ArithmeticException("long overflow");
-	}
-	return result;
-}
-
-int Math::addExact(int valueA, int valueB) {
-	int result = valueA + valueB;
-	if (((valueA ^ result) & (valueB ^ result)) < 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return result;
-}
-
-double Math::cbrt(double value) {
-	return ::cbrt(value);
-}
-
-double Math::ceil(double value) {
-	return ::ceil(value);
-}
-
-double Math::copySign(double magnitude, double sign) {
-	return ::copysign(magnitude, sign);
-}
-
-float Math::copySign(float magnitude, float sign) {
-	return ::copysignf(magnitude, sign);
-}
-
-double Math::cos(double angle) {
-	double result = ::cos(angle);
-	
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	
-	return ::cos(angle);
-}
-
-double Math::cosh(double angle) {
-	return ::cosh(angle);
-}
-
-long Math::decrementExact(long value) {
-	if (value == Long::MIN_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return value - 1;
-}
-
-int Math::decrementExact(int value) {
-	if (value == Integer::MIN_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return value - 1;
-}
-
-double Math::exp(double exponent) {
-	return ::exp(exponent);
-}
-
-double Math::expm1(double exponent) {
-	return ::expm1(exponent);
-}
-
-double Math::floor(double value) {
-	return ::floor(value);
-}
-
-int Math::floorDiv(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException();
-	}
-	int result = dividend / divisor;
-	// if the signs are different and modulo not zero, round down
-	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-		result--;
-	}
-	return result;
-}
-
-long Math::floorDiv(long dividend, long divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException();
-	}
-	long result = dividend / divisor;
-	// if the signs are different and modulo not zero, round down
-	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-		result--;
-	}
-	return result;
-}
-
-int Math::floorMod(int dividend, int divisor) {
-	return dividend - (floorDiv(dividend, divisor) * divisor);
-}
-
-long Math::floorMod(long dividend, long divisor) {
-	return dividend - (floorDiv(dividend, divisor) * divisor);
-}
-
-int Math::getExponent(double value) {
-	if (Double::isNaN(value) || value == -INFINITY || value == INFINITY) {
-		return Double::MAX_EXPONENT + 1;
-	}
-	
-	if (value == -0 || value == 0) {
-		return Double::MIN_EXPONENT - 1;
-	}
-	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
-		return Double::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
-}
-
-int Math::getExponent(float value) {
-	if (Float::isNaN(value) || value == -INFINITY || value == INFINITY) {
-		return Float::MAX_EXPONENT + 1;
-	}
-	
-	if (value == -0 || value == 0) {
-		return Float::MIN_EXPONENT - 1;
-	}
-	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
-		return Float::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
-}
-
-double Math::hypot(double valueA, double valueB) {
-	return ::hypot(valueA, valueB);
-}
-
-inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
-}
-
-double Math::IEEERemainder(double dividend, double divisor) {
-	double result = math_ieeeremainder(dividend, divisor);
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	return result;
-}
-
-int Math::incrementExact(int value) {
-	if (value == Integer::MAX_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return value + 1;
-}
-
-long Math::incrementExact(long value) {
-	if (value == Long::MAX_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return value + 1;
-}
-
-double Math::log(double value) {
-	return ::log(value);
-}
-
-double Math::log10(double value) {
-	return ::log10(value);
-}
-
-double Math::log1p(double value) {
-	double result = ::log1p(value);
-	
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	
-	return ::log1p(value);
-}
-
-int Math::max(int valueA, int valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-float Math::max(float valueA, float valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-long Math::max(long valueA, long valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-double Math::max(double valueA, double valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-int Math::min(int valueA, int valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-float Math::min(float valueA, float valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-long Math::min(long valueA, long valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-double Math::min(double valueA, double valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-int Math::multiplyExact(int valueA, int valueB) {
-	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return (int) result;
-}
-
-long Math::multiplyExact(long valueA, long valueB) {
-	if (valueA == Long::MIN_VALUE && valueB == -1) {
-		throw ArithmeticException("long overflow");
-		
-	}
-	
-	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
-	
-	if (((absA | absB) >> 31) != 0) {
-		if ((valueB != 0) && (result / valueB != valueA)) {
-			throw ArithmeticException("long overflow");
-		}
-	}
-	return result;
-}
-
-int Math::negateExact(int intValue) {
-	if (intValue == Integer::MIN_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return -intValue;
-}
-
-long Math::negateExact(long longValue) {
-	if (longValue == Long::MIN_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return -longValue;
-}
-
-double Math::nextAfter(double start, double direction) {
-	return nexttoward(start, direction);
-}
-
-float Math::nextAfter(float start, double direction) {
-	return nexttowardf(start, direction);
-}
-
-double Math::nextDown(double value) {
-	if (Double::isNaN(value) || value == Double::NEGATIVE_INFINITY) {
-		return value;
-	}
-	if (value == 0.0) {
-		return -Double::MIN_VALUE;
-	}
-	
-	return ::nexttoward(value, Double::NEGATIVE_INFINITY);
-}
-
-float Math::nextDown(float value) {
-	if (Float::isNaN(value) || value == Float::NEGATIVE_INFINITY) {
-		return value;
-	}
-	
-	if (value == 0.0) {
-		return -Float::MIN_VALUE;
-	}
-	
-	return ::nexttowardf(value, Float::NEGATIVE_INFINITY);
-}
-
-float Math::nextUp(float value) {
-	if (Float::isNaN(value) || value == Float::POSITIVE_INFINITY) {
-		return value;
-	}
-	
-	return ::nexttowardf(value, Float::POSITIVE_INFINITY);
-}
-
-double Math::nextUp(double value) {
-	if (Double::isNaN(value) || value == Double::POSITIVE_INFINITY) {
-		return value;
-	}
-	
-	return ::nexttoward(value, Double::POSITIVE_INFINITY);
-}
-
-double Math::pow(double base, double exponent) {
-	return ::pow(base, exponent);
-}
-
-double Math::powerOfTwoD(int exponent) {
-	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
-		throw AssertionError(exponent);
-	}
-	long oneLong = 1;
-	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
-		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
-}
-
-// TODO need Float::intBitsToFloat
-float Math::powerOfTwoF(int exponent) {
-	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
-		throw AssertionError(exponent);
-	}
-	
-	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
-			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
-	return 0;
-}
-
-double Math::random() {
-	Random random1 = Random();
-	return random1.nextDouble();
-}
-
-double Math::rint(double value) {
-	return ::rint(value);
-}
-
-int Math::round(float value) {
-	return (int) ::roundf(value);
-}
-
-long Math::round(double value) {
-	return (long) ::round(value);
-}
-
-float Math::scalb(float value, int scaleFactor) {
-	return ::ldexpf(value, scaleFactor);
-}
-
-double Math::scalb(double value, int scaleFactor) {
-	return ::scalbn(value, scaleFactor);
-}
-
-double Math::signum(double value) {
-	if (value == 0.0 || Double::isNaN(value)) {
-		return value;
-	}
-	return Math::copySign(1.0, value);
-}
-
-float Math::signum(float value) {
-	if (value == 0.0f || Float::isNaN(value)) {
-		return value;
-	}
-	
-	if (value == 0.0f) {
-		return -0.0f;
-	}
-	
-	return Math::copySign(1.0f, value);
-}
-
-double Math::sin(double angle) {
-	return ::sin(angle);
-}
-
-double Math::sinh(double angle) {
-	return ::sinh(angle);
-}
-
-double Math::sqrt(double value) {
-	return ::sqrt(value);
-}
-
-long Math::subtractExact(long valueA, long valueB) {
-	long result = valueA - valueB;
-	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
-		throw ArithmeticException("long overflow");
-	}
-	return result;
-}
-
-int Math::subtractExact(int valueA, int valueB) {
-	int result = valueA - valueB;
-	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return result;
-}
-
-double Math::tan(double angle) {
-	return ::tan(angle);
-}
-
-double Math::tanh(double angle) {
-	return ::tanh(angle);
-}
-
-double Math::toDegrees(double angleRadian) {
-	return angleRadian * 180.0 / PI;
-}
-
-int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return (int) value;
-}
-
-double Math::toRadians(double angleDegree) {
-	return angleDegree / 180.0 * PI;
-}
-
-//TODO need Float::intBitsToFloat
-float Math::ulp(float value) {
-	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
-		return (float) Math::pow(2, 104);
-	}
-	int exp = getExponent(value);
-	switch(exp) {
-		case Float::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Float::MIN_EXPONENT - 1:        // zero or subnormal
-			return Float::MIN_VALUE;
-		default:
-			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Float::MIN_EXPONENT) {
-				return powerOfTwoF(exp);
-			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
-	}
-	return 0.0;
-}
-
-double Math::ulp(double value) {
-	if (value == Double::MAX_VALUE || value == -Double::MAX_VALUE) {
-		return Math::pow(2, 971);
-	}
-	int exp = getExponent(value);
-	switch (exp) {
-		case Double::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Double::MIN_EXPONENT - 1:        // zero or subnormal
-			return Double::MIN_VALUE;
-		default:
-			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Double::MIN_EXPONENT) {
-				return powerOfTwoD(exp);
-			}
-			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
-			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
-	}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+#include "../AssertionError/AssertionError.hpp"
+
+using namespace Java::Lang;
+
+int Math::abs(int value) {
+	return value >= 0 ? value : -value;
+}
+
+float Math::abs(float value) {
+	return value >= 0 ? value : -value;
+}
+
+long Math::abs(long value) {
+	return value >= 0 ? value : -value;
+}
+
+double Math::abs(double value) {
+	if(Double::isNaN(value)) {
+		return Double::NaN;
+	}
+	
+	return value >= 0 ? value : -value;
+}
+
+double Math::acos(double value) {
+	return ::acos(value);
+}
+
+double Math::asin(double value) {
+	return ::asin(value);
+}
+
+double Math::atan(double value) {
+	return ::atan(value);
+}
+
+double Math::atan2(double coordinateX, double coordinateY) {
+	return ::atan2(coordinateX, coordinateY);
+}
+
+long Math::addExact(long valueA, long valueB) {
+	long result = valueA + valueB;
+	if (((valueA ^ result) & (valueB ^ result)) < 0) {
+		throw ArithmeticException("long overflow");
+	}
+	return result;
+}
+
+int Math::addExact(int valueA, int valueB) {
+	int result = valueA + valueB;
+	if (((valueA ^ result) & (valueB ^ result)) < 0) {
+		throw ArithmeticException("integer overflow");
+	}
+	return result;
+}
+
+double Math::cbrt(double value) {
+	return ::cbrt(value);
+}
+
+double Math::ceil(double value) {
+	return ::ceil(value);
+}
+
+double Math::copySign(double magnitude, double sign) {
+	return ::copysign(magnitude, sign);
+}
+
+float Math::copySign(float magnitude, float sign) {
+	return ::copysignf(magnitude, sign);
+}
+
+double Math::cos(double angle) {
+	double result = ::cos(angle);
+	
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	
+	return ::cos(angle);
+}
+
+double Math::cosh(double angle) {
+	return ::cosh(angle);
+}
+
+long Math::decrementExact(long value) {
+	if (value == Long::MIN_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return value - 1;
+}
+
+int Math::decrementExact(int value) {
+	if (value == Integer::MIN_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return value - 1;
+}
+
+double Math::exp(double exponent) {
+	return ::exp(exponent);
+}
+
+double Math::expm1(double exponent) {
+	return ::expm1(exponent);
+}
+
+double Math::floor(double value) {
+	return ::floor(value);
+}
+
+int Math::floorDiv(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException();
+	}
+	int result = dividend / divisor;
+	// if the signs are different and modulo not zero, round down
+	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
+		result--;
+	}
+	return result;
+}
+
+long Math::floorDiv(long dividend, long divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException();
+	}
+	long result = dividend / divisor;
+	// if the signs are different and modulo not zero, round down
+	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
+		result--;
+	}
+	return result;
+}
+
+int Math::floorMod(int dividend, int divisor) {
+	return dividend - (floorDiv(dividend, divisor) * divisor);
+}
+
+long Math::floorMod(long dividend, long divisor) {
+	return dividend - (floorDiv(dividend, divisor) * divisor);
+}
+
+int Math::getExponent(double value) {
+	if (Double::isNaN(value) || value == -INFINITY || value == INFINITY) {
+		return Double::MAX_EXPONENT + 1;
+	}
+	
+	if (value == -0 || value == 0) {
+		return Double::MIN_EXPONENT - 1;
+	}
+	
+	double mantissas;
+	int exponent;
+	mantissas = std::frexp(value, &exponent);
+	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
+		return Double::MIN_EXPONENT - 1;
+	}
+	
+	return exponent - 1;
+}
+
+int Math::getExponent(float value) {
+	if (Float::isNaN(value) || value == -INFINITY || value == INFINITY) {
+		return Float::MAX_EXPONENT + 1;
+	}
+	
+	if (value == -0 || value == 0) {
+		return Float::MIN_EXPONENT - 1;
+	}
+	
+	double mantissas;
+	int exponent;
+	mantissas = std::frexp(value, &exponent);
+	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
+		return Float::MIN_EXPONENT - 1;
+	}
+	
+	return exponent - 1;
+}
+
+double Math::hypot(double valueA, double valueB) {
+	return ::hypot(valueA, valueB);
+}
+
+inline double math_ieeeremainder(double dividend, double divisor) {
+	return dividend - ( round(dividend / divisor) * divisor );
+}
+
+double Math::IEEERemainder(double dividend, double divisor) {
+	double result = math_ieeeremainder(dividend, divisor);
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	return result;
+}
+
+int Math::incrementExact(int value) {
+	if (value == Integer::MAX_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return value + 1;
+}
+
+long Math::incrementExact(long value) {
+	if (value == Long::MAX_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return value + 1;
+}
+
+double Math::log(double value) {
+	return ::log(value);
+}
+
+double Math::log10(double value) {
+	return ::log10(value);
+}
+
+double Math::log1p(double value) {
+	double result = ::log1p(value);
+	
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	
+	return ::log1p(value);
+}
+
+int Math::max(int valueA, int valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+float Math::max(float valueA, float valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+long Math::max(long valueA, long valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+double Math::max(double valueA, double valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+int Math::min(int valueA, int valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+float Math::min(float valueA, float valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+long Math::min(long valueA, long valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+double Math::min(double valueA, double valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+int Math::multiplyExact(int valueA, int valueB) {
+	long result = (long) valueA * (long) valueB;
+	if (result != (int) result) {
+		throw ArithmeticException("integer overflow");
+	}
+	return (int) result;
+}
+
+long Math::multiplyExact(long valueA, long valueB) {
+	if (valueA == Long::MIN_VALUE && valueB == -1) {
+		throw ArithmeticException("long overflow");
+		
+	}
+	
+	long result = valueA * valueB;
+	unsigned long absA = (unsigned) abs(valueA);
+	unsigned long absB = (unsigned) abs(valueB);
+	
+	if (((absA | absB) >> 31) != 0) {
+		if ((valueB != 0) && (result / valueB != valueA)) {
+			throw ArithmeticException("long overflow");
+		}
+	}
+	return result;
+}
+
+int Math::negateExact(int intValue) {
+	if (intValue == Integer::MIN_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return -intValue;
+}
+
+long Math::negateExact(long longValue) {
+	if (longValue == Long::MIN_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return -longValue;
+}
+
+double Math::nextAfter(double start, double direction) {
+	return nexttoward(start, direction);
+}
+
+float Math::nextAfter(float start, double direction) {
+	return nexttowardf(start, direction);
+}
+
+double Math::nextDown(double value) {
+	if (Double::isNaN(value) || value == Double::NEGATIVE_INFINITY) {
+		return value;
+	}
+	if (value == 0.0) {
+		return -Double::MIN_VALUE;
+	}
+	
+	return ::nexttoward(value, Double::NEGATIVE_INFINITY);
+}
+
+float Math::nextDown(float value) {
+	if (Float::isNaN(value) || value == Float::NEGATIVE_INFINITY) {
+		return value;
+	}
+	
+	if (value == 0.0) {
+		return -Float::MIN_VALUE;
+	}
+	
+	return ::nexttowardf(value, Float::NEGATIVE_INFINITY);
+}
+
+float Math::nextUp(float value) {
+	if (Float::isNaN(value) || value == Float::POSITIVE_INFINITY) {
+		return value;
+	}
+	
+	return ::nexttowardf(value, Float::POSITIVE_INFINITY);
+}
+
+double Math::nextUp(double value) {
+	if (Double::isNaN(value) || value == Double::POSITIVE_INFINITY) {
+		return value;
+	}
+	
+	return ::nexttoward(value, Double::POSITIVE_INFINITY);
+}
+
+double Math::pow(double base, double exponent) {
+	return ::pow(base, exponent);
+}
+
+double Math::powerOfTwoD(int exponent) {
+	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
+		throw AssertionError(exponent);
+	}
+	long oneLong = 1;
+	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
+		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
+}
+
+// TODO need Float::intBitsToFloat
+float Math::powerOfTwoF(int exponent) {
+	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
+		throw AssertionError(exponent);
+	}
+	
+	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
+			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
+	return 0;
+}
+
+double Math::random() {
+	Random random1 = Random();
+	return random1.nextDouble();
+}
+
+double Math::rint(double value) {
+	return ::rint(value);
+}
+
+int Math::round(float value) {
+	return (int) ::roundf(value);
+}
+
+long Math::round(double value) {
+	return (long) ::round(value);
+}
+
+float Math::scalb(float value, int scaleFactor) {
+	return ::ldexpf(value, scaleFactor);
+}
+
+double Math::scalb(double value, int scaleFactor) {
+	return ::scalbn(value, scaleFactor);
+}
+
+double Math::signum(double value) {
+	if (value == 0.0 || Double::isNaN(value)) {
+		return value;
+	}
+	return Math::copySign(1.0, value);
+}
+
+float Math::signum(float value) {
+	if (value == 0.0f || Float::isNaN(value)) {
+		return value;
+	}
+	
+	if (value == 0.0f) {
+		return -0.0f;
+	}
+	
+	return Math::copySign(1.0f, value);
+}
+
+double Math::sin(double angle) {
+	return ::sin(angle);
+}
+
+double Math::sinh(double angle) {
+	return ::sinh(angle);
+}
+
+double Math::sqrt(double value) {
+	return ::sqrt(value);
+}
+
+long Math::subtractExact(long valueA, long valueB) {
+	long result = valueA - valueB;
+	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
+		throw ArithmeticException("long overflow");
+	}
+	return result;
+}
+
+int Math::subtractExact(int valueA, int valueB) {
+	int result = valueA - valueB;
+	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
+		throw ArithmeticException("integer overflow");
+	}
+	return result;
+}
+
+double Math::tan(double angle) {
+	return ::tan(angle);
+}
+
+double Math::tanh(double angle) {
+	return ::tanh(angle);
+}
+
+double Math::toDegrees(double angleRadian) {
+	return angleRadian * 180.0 / PI;
+}
+
+int Math::toIntExact(long value) {
+	if (value - (int) value > 0) {
+		throw ArithmeticException("integer overflow");
+	}
+	return (int) value;
+}
+
+double Math::toRadians(double angleDegree) {
+	return angleDegree / 180.0 * PI;
+}
+
+//TODO need Float::intBitsToFloat
+float Math::ulp(float value) {
+	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
+		return (float) Math::pow(2, 104);
+	}
+	int exp = getExponent(value);
+	switch(exp) {
+		case Float::MAX_EXPONENT + 1:        // NaN or infinity
+			return Math::abs(value);
+		case Float::MIN_EXPONENT - 1:        // zero or subnormal
+			return Float::MIN_VALUE;
+		default:
+			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
+				throw AssertionError(exp);
+			}
+			
+			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
+			if (exp >= Float::MIN_EXPONENT) {
+				return powerOfTwoF(exp);
+			}
+			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
+														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
+	}
+	return 0.0;
+}
+
+double Math::ulp(double value) {
+	if (value == Double::MAX_VALUE || value == -Double::MAX_VALUE) {
+		return Math::pow(2, 971);
+	}
+	int exp = getExponent(value);
+	switch (exp) {
+		case Double::MAX_EXPONENT + 1:        // NaN or infinity
+			return Math::abs(value);
+		case Double::MIN_EXPONENT - 1:        // zero or subnormal
+			return Double::MIN_VALUE;
+		default:
+			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
+				throw AssertionError(exp);
+			}
+			
+			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
+			if (exp >= Double::MIN_EXPONENT) {
+				return powerOfTwoD(exp);
+			}
+			
+			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
+			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 4e2eb6fbbc1240c2c8a9425726db3715837d46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 02/40] fix: Math::toIntExact must also report values below
 Integer::MIN_VALUE

---
 library/Java/Lang/Math/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3a11e9b..cbc4658 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -484,7 +484,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From abed0f2086d0697c608d3205bfe7b97c9c7af834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 03/40] fix: Math::multiplyExact(long, long) must not truncate
 its operands to 32 bits before the overflow test

---
 library/Java/Lang/Math/Math.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index cbc4658..efdbd39 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -297,19 +297,9 @@ int Math::multiplyExact(int valueA, int valueB) {
 }
 
 long Math::multiplyExact(long valueA, long valueB) {
-	if (valueA == Long::MIN_VALUE && valueB == -1) {
+	long result;
+	if (__builtin_mul_overflow(valueA, valueB, &result)) {
 		throw ArithmeticException("long overflow");
-		
-	}
-	
-	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
-	
-	if (((absA | absB) >> 31) != 0) {
-		if ((valueB != 0) && (result / valueB != valueA)) {
-			throw ArithmeticException("long overflow");
-		}
 	}
 	return result;
 }
-- 
2.43.0


From 8502bf90d3d4e5a088792efe77c45169ef6f01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 04/40] fix: Math::floorDiv and floorMod must not trap on
 MIN_VALUE / -1

---
 library/Java/Lang/Math/Math.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index efdbd39..254b66f 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,6 +142,9 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (dividend == Integer::MIN_VALUE && divisor == -1) {
+		return dividend;
+	}
 	int result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
@@ -154,6 +157,9 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (dividend == Long::MIN_VALUE && divisor == -1) {
+		return dividend;
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 3955b4a5d32403e84541b241320544795d465f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 05/40] fix: Long::reverse must reverse the bits instead of
 returning its argument

---
 library/Java/Lang/Long/Long.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..510af87 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -422,16 +422,11 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long u = (unsigned long) i;
+	u = ( u & 0x5555555555555555UL ) << 1 | (( u >> 1 ) & 0x5555555555555555UL );
+	u = ( u & 0x3333333333333333UL ) << 2 | (( u >> 2 ) & 0x3333333333333333UL );
+	u = ( u & 0x0f0f0f0f0f0f0f0fUL ) << 4 | (( u >> 4 ) & 0x0f0f0f0f0f0f0f0fUL );
+	return Long::reverseBytes((long) u);
 }
 
 /**
-- 
2.43.0


From 302fbc91a4f598dd2d07531cda7c67787bfbb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 06/40] fix: Long::reverseBytes must reverse the bytes instead
 of returning its argument

---
 library/Java/Lang/Long/Long.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 510af87..ce425ef 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -437,9 +437,9 @@ long Long::reverse(long i) {
  * @return long
  */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long u = (unsigned long) i;
+	u = ( u & 0x00ff00ff00ff00ffUL ) << 8 | (( u >> 8 ) & 0x00ff00ff00ff00ffUL );
+	return (long) (( u << 48 ) | (( u & 0xffff0000UL ) << 16 ) | (( u >> 16 ) & 0xffff0000UL ) | ( u >> 48 ));
 }
 
 /**
-- 
2.43.0


From 93814d9a4caf48c7007cbcc76cc5c8dd17d67a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 07/40] fix: Long::rotateLeft must not shift sign bits in from
 the left

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index ce425ef..e07f911 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -451,7 +451,7 @@ long Long::reverseBytes(long i) {
  * @return long
  */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	return (long) (((unsigned long) i << ( distance & 63 )) | ((unsigned long) i >> ( -distance & 63 )));
 }
 
 /**
-- 
2.43.0


From cc495dcfec0d6748f0bdef84533e6726166ba09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 08/40] fix: Long::rotateRight must not shift sign bits in from
 the left

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index e07f911..d68c4bf 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -463,7 +463,7 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	return (long) (((unsigned long) i >> ( distance & 63 )) | ((unsigned long) i << ( -distance & 63 )));
 }
 
 /**
-- 
2.43.0


From 3e89c870bbcb78921c20362eac56fc21d551e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 09/40] fix: Long::signum must be 1 for positive values

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index d68c4bf..d93e9e9 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -482,7 +482,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | (long) ((unsigned long) -i >> 63 ));
 }
 
 /**
-- 
2.43.0


From 7fc0cacbb263d44284504eeb74a39aff0f80cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 10/40] fix: Long::highestOneBit must return the top bit for
 negative values

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index d93e9e9..9a5905f 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -264,7 +264,7 @@ long Long::highestOneBit(long i) {
 	i |= ( i >> 8 );
 	i |= ( i >> 16 );
 	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	return (long) ((unsigned long) i - ((unsigned long) i >> 1 ));
 }
 
 /**
-- 
2.43.0


From dd0fcdb4a158f94c69de4165c3eb5ca573d3aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 11/40] fix: Long::formatUnsignedLong must shift zeros in, so
 that negative values format as unsigned

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 9a5905f..aa3f715 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -600,7 +600,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (long) ((unsigned long) val >> shift );
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From db0c097bb0f08f1b71a8d9513e7f2e4c76856dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 12/40] fix: Long compound assignments must keep the text form
 in step with the value

---
 library/Java/Lang/Long/Long.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index aa3f715..fb9e528 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -789,7 +789,7 @@ boolean Long::operator>=(const Long &target) const {
  * @param target
  */
 void Long::operator-=(const Long &target) {
-	this->original -= target.original;
+	*this = Long(this->original - target.original);
 }
 
 /**
@@ -798,7 +798,7 @@ void Long::operator-=(const Long &target) {
  * @param target
  */
 void Long::operator+=(const Long &target) {
-	this->original += target.original;
+	*this = Long(this->original + target.original);
 }
 
 /**
@@ -807,7 +807,7 @@ void Long::operator+=(const Long &target) {
  * @param target
  */
 void Long::operator*=(const Long &target) {
-	this->original *= target.original;
+	*this = Long(this->original * target.original);
 }
 
 /**
@@ -816,7 +816,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	this->original /= target.original;
+	*this = Long(this->original / target.original);
 }
 
 /**
@@ -825,5 +825,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	this->original %= target.original;
+	*this = Long(this->original % target.original);
 }
\ No newline at end of file
-- 
2.43.0


From 1ad42d7576f6a9fa24163e6b26b792cab41ece7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 13/40] fix: Long::toString(long) must not return the text of
 the first value ever passed

---
 library/Java/Lang/Long/Long.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index fb9e528..8075e61 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -534,7 +534,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
-- 
2.43.0


From 4c15664ce543a27dfd6fac3756ac5e3196eae61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 14/40] fix: Long division and remainder must throw
 ArithmeticException for a zero divisor and not trap on MIN_VALUE / -1

---
 library/Java/Lang/Long/Long.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 8075e61..210591d 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -26,6 +26,7 @@
 
 #include "Long.hpp"
 #include "../Math/Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -675,6 +676,12 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE / -1 would trap
+		return Long((long) (0UL - (unsigned long) this->original));
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -686,6 +693,12 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE % -1 would trap
+		return Long(0L);
+	}
 	Long result = this->original % target.original;
 	return result;
 }
@@ -816,7 +829,7 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
-	*this = Long(this->original / target.original);
+	*this = *this / target;
 }
 
 /**
@@ -825,5 +838,5 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
-	*this = Long(this->original % target.original);
+	*this = *this % target;
 }
\ No newline at end of file
-- 
2.43.0


From a183ec34c7f6414a242cd35ce49684b76fab8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 15/40] fix: Integer division and remainder must not trap on
 MIN_VALUE / -1

---
 library/Java/Lang/Integer/Integer.cpp | 1222 +++++++++++++------------
 1 file changed, 614 insertions(+), 608 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..77ebc96 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -1,608 +1,614 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, 
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, 
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include <sstream>
-#include <string>
-#include "Integer.hpp"
-#include "../Math/Math.hpp"
-#include "../NumberFormatException/NumberFormatException.hpp"
-#include "../UnsupportedOperationException/UnsupportedOperationException.hpp"
-#include "../ArithmeticException/ArithmeticException.hpp"
-
-using namespace Java::Lang;
-
-Integer::Integer() {
-	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(int original) {
-	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(String inputString) {
-	this->original = Integer::parseInt(inputString);
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(const Integer &integer) {
-	this->original = integer.original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::~Integer() {
-	if (this->originalString != nullptr) {
-		free(this->originalString);
-	}
-}
-
-char Integer::charValue() const {
-	string convertResult;
-    asprintf(&convertResult, "%d", this->original);
-	char result;
-    if (convertResult == "") {
-        result = '\0';
-    } else {
-        result = convertResult[0];
-    }
-	free(convertResult);
-	return result;
-}
-
-string Integer::stringValue() const {
-	return this->originalString;
-}
-
-short Integer::shortValue() const {
-	return (short) this->original;
-}
-
-int Integer::intValue() const {
-	return this->original;
-}
-
-long Integer::longValue() const {
-	return (long) this->original;
-}
-
-float Integer::floatValue() const {
-	return (float) this->original;
-}
-
-double Integer::doubleValue() const {
-	return (double) this->original;
-}
-
-Integer &Integer::operator=(const Integer &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer Integer::operator+(const Integer &target) {
-	return this->original + target.original;
-}
-
-Integer Integer::operator-(const Integer &target) {
-	return this->original - target.original;
-}
-
-boolean Integer::operator==(const Integer &target) const {
-	return this->original == target.original;
-}
-
-boolean Integer::operator!=(const Integer &target) const {
-	return this->original != target.original;
-}
-
-boolean Integer::operator<(const Integer &target) const {
-	return this->original < target.original;
-}
-
-boolean Integer::operator>(const Integer &target) const {
-	return this->original > target.original;
-}
-
-boolean Integer::operator<=(const Integer &target) const {
-	return this->original <= target.original;
-}
-
-boolean Integer::operator>=(const Integer &target) const {
-	return this->original >= target.original;
-}
-
-Integer Integer::operator/(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return this->original / target.original;
-}
-
-Integer Integer::operator*(const Integer &target) {
-	return this->original * target.original;
-}
-
-Integer Integer::operator%(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return this->original % target.original;
-}
-
-Integer &Integer::operator+=(const Integer &target) {
-	this->original += target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator-=(const Integer &target) {
-	this->original -= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator/=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original /= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator*=(const Integer &target) {
-	this->original *= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator%=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original %= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-int Integer::bitCount(int inputInt) {
-	String inputInBinary = Integer::toBinaryString(inputInt);
-	int resultBitCount = 0;
-	int index;
-	for (index = 0; index < inputInBinary.length(); index++) {
-		if (inputInBinary.charAt(index) == '1') {
-			resultBitCount++;
-		}
-	}
-	
-	return resultBitCount;
-}
-
-byte Integer::byteValue() {
-	return static_cast<byte> (this->original);
-}
-
-int Integer::compare(int inputInt1, int inputInt2) {
-	if (inputInt1 < inputInt2) {
-		return -1;
-	}
-	
-	if (inputInt1 > inputInt2) {
-		return 1;
-	}
-	
-	return 0;
-}
-
-int Integer::compareTo(const Integer &anotherInteger) const {
-	return this->compare(this->original, anotherInteger.intValue());
-}
-
-int Integer::compareUnsigned(int intA, int intB) {
-	return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);
-}
-
-Integer Integer::decode(String inputString) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	boolean isNegative = false;
-	int base = 10;
-	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	if (inputString.charAt(0) == '0') {
-		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
-			base = 16;
-		} else {
-			base = 8;
-		}
-	}
-	
-	int result = parseInt(inputString, base);
-	if (isNegative) {
-		return static_cast<Integer>(-result);
-	}
-	return static_cast<Integer>(result);
-}
-
-int Integer::divideUnsigned(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (int) ( Integer::toUnsignedLong(dividend) / Integer::toUnsignedLong(divisor));
-}
-
-// Integer Integer::getInteger(String inputString) {
-
-
-// }
-
-// Integer Integer::getInteger(String inputString, int inputInt) {
-
-
-// }
-
-// Integer Integer::getInteger(String inputString, Integer inputInteger) {
-
-
-// }
-
-
-int Integer::highestOneBit(int inputInt) {
-	inputInt |= ( inputInt >> 1 );
-	inputInt |= ( inputInt >> 2 );
-	inputInt |= ( inputInt >> 4 );
-	inputInt |= ( inputInt >> 8 );
-	inputInt |= ( inputInt >> 16 );
-	
-	return inputInt - ((unsigned int) inputInt >> 1 );
-}
-
-int Integer::lowestOneBit(int inputInt) {
-	return inputInt & -inputInt;
-}
-
-int Integer::max(int intA, int intB) {
-	return Math::max(intA, intB);
-}
-
-int Integer::min(int intA, int intB) {
-	return Math::min(intA, intB);
-}
-
-int Integer::numberOfLeadingZeros(int inputInt) {
-	if (inputInt == 0) {
-		return 32;
-	}
-	
-	int numberOfZero = 1;
-	
-	if ((unsigned int) inputInt >> 16 == 0) {
-		numberOfZero += 16;
-		inputInt <<= 16;
-	}
-	
-	if ((unsigned int) inputInt >> 24 == 0) {
-		numberOfZero += 8;
-		inputInt <<= 8;
-	}
-	
-	if ((unsigned int) inputInt >> 28 == 0) {
-		numberOfZero += 4;
-		inputInt <<= 4;
-	}
-	
-	if ((unsigned int) inputInt >> 30 == 0) {
-		numberOfZero += 2;
-		inputInt <<= 2;
-	}
-	
-	numberOfZero -= (unsigned int) inputInt >> 31;
-	
-	return numberOfZero;
-}
-
-int Integer::numberOfTrailingZeros(int inputInt) {
-	if (inputInt == 0) {
-		return 32;
-	}
-	
-	String inputInBinary = Integer::toBinaryString(inputInt);
-	int lastIndexOfOneBit = inputInBinary.lastIndexOf('1');
-	int numberOfTrailingZeros = inputInBinary.length() - lastIndexOfOneBit - 1;
-	return numberOfTrailingZeros;
-}
-
-int Integer::parseInt(String inputString, int radix) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		throw NumberFormatException("radix out of range");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	boolean isNegative = false;
-	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	unsigned long unsignedResult = 0;
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	}
-	catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	}
-	catch (const std::out_of_range &e) {
-		throw NumberFormatException("Integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
-	if (isNegative) {
-		result = -unsignedResult;
-	}
-	
-	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {
-		throw NumberFormatException("Integer out of range");
-	}
-	
-	return (int) result;
-}
-
-int Integer::parseInt(String inputString) {
-	return Integer::parseInt(inputString, 10);
-}
-
-int Integer::parseUnsignedInt(String inputString, int radix) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		throw NumberFormatException("radix out of range");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	char sign = inputString.charAt(0);
-	
-	
-	if (( isdigit(sign)) == 0) {
-		if (sign == '-') {
-			throw NumberFormatException("Illegal leading minus sign");
-		}
-		
-		if (sign == '+') {
-			inputString = inputString.getStringFromIndex(1);
-		}
-	}
-	
-	unsigned long unsignedResult = 0;
-	
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	} catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	} catch (const std::out_of_range &e) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
-	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
-	
-	return (int) result;
-}
-
-int Integer::parseUnsignedInt(String inputString) {
-	return Integer::parseUnsignedInt(inputString, 10);
-}
-
-int Integer::remainderUnsigned(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (int) ( toUnsignedLong(dividend) % toUnsignedLong(divisor));
-}
-
-int Integer::reverse(int inputInt) {
-	inputInt = ( inputInt & 0x55555555 ) << 1
-	           | (((unsigned int) inputInt >> 1 ) & 0x55555555);
-	
-	inputInt = ( inputInt & 0x33333333 ) << 2
-	           | (((unsigned int) inputInt >> 2 ) & 0x33333333);
-	
-	inputInt = ( inputInt & 0x0f0f0f0f ) << 4
-	           | (((unsigned int) inputInt >> 4 ) & 0x0f0f0f0f);
-	
-	inputInt = ( inputInt << 24 ) | (( inputInt & 0xff00 ) << 8 )
-	           | (((unsigned int) inputInt >> 8 ) & 0xff00 )
-	           | ((unsigned int) inputInt >> 24 );
-	
-	return inputInt;
-}
-
-int Integer::reverseBytes(int inputInt) {
-	inputInt = (((unsigned int) inputInt >> 24 ))
-	           | (( inputInt >> 8 ) & 0xFF00 )
-	           | (( inputInt << 8 ) & 0xFF0000 )
-	           | (( inputInt << 24 ));
-	
-	return inputInt;
-}
-
-int Integer::rotateLeft(int inputInt, int distance) {
-	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
-	return inputInt;
-}
-
-int Integer::rotateRight(int inputInt, int distance) {
-	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
-}
-
-String Integer::toString() const {
-	return this->originalString;
-}
-
-long Integer::toUnsignedLong(int inputInt) {
-	// Make the overload bits is 0 to make sure inputInt in 32 bit type.
-	return ((long) inputInt ) & 0xffffffff;
-}
-
-boolean Integer::equals(Integer object) {
-	return this->original == object.intValue();
-}
-
-int Integer::hashCode(int inputInt) {
-	return inputInt;
-}
-
-int Integer::hashCode() const {
-	return Integer::hashCode(this->original);
-}
-
-int Integer::signum(int inputInt) {
-	if (inputInt == 0) {
-		return 0;
-	}
-	
-	if (inputInt > 0) {
-		return 1;
-	}
-	
-	return -1;
-}
-
-int Integer::sum(int intA, int intB) {
-	return intA + intB;
-}
-
-String Integer::toBinaryString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 2);
-}
-
-String Integer::toUnsignedString(int inputInt, int radix) {
-	if (inputInt == 0) {
-		return String("0");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		radix = 10;
-	}
-	
-	std::stringstream stream;
-	String result;
-	
-	switch (radix) {
-		case 2:
-			// TODO change to java.util.BitSet
-			result = std::bitset<32>((unsigned long long int) Integer::toUnsignedLong(inputInt)).to_string();
-			result = result.getStringFromIndex(result.indexOf('1'));
-			return result;
-		case 8:
-			stream << std::oct << Integer::toUnsignedLong(inputInt);
-			result = stream.str();			
-			result.replace(',', '\0');
-			return result;
-		case 16:
-			stream << std::hex << Integer::toUnsignedLong(inputInt);
-			result = stream.str();
-			result.replace(',', '\0');
-			return result;;
-		case 10:
-			stream << std::dec << Integer::toUnsignedLong(inputInt);
-			result = stream.str();
-			result.replace(',', '\0');
-			return result;
-		default:
-			throw UnsupportedOperationException("Haven't support this radix yet");
-	}
-}
-
-String Integer::toUnsignedString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 10);
-}
-
-String Integer::toHexString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 16);
-}
-
-String Integer::toOctalString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 8);
-}
-
-Integer Integer::valueOf(int inputInt) {
-	return Integer(inputInt);
-}
-
-Integer Integer::valueOf(String inputString) {
-	return Integer::valueOf(Integer::parseInt(inputString));
-}
-
-Integer Integer::valueOf(String inputString, int radix) {
-	return Integer::valueOf(Integer::parseInt(inputString, radix));
-}
-
-String Integer::toString(int inputInt) {
-	return Integer::toString(inputInt, 10);
-}
-
-String Integer::toString(int inputInt, int radix) {
-	if (inputInt < 0) {
-		inputInt = -inputInt;
-		return String("-") + Integer::toUnsignedString(inputInt, radix);
-	}
-	
-	return Integer::toUnsignedString(inputInt, radix);
-}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, 
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, 
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include <sstream>
+#include <string>
+#include "Integer.hpp"
+#include "../Math/Math.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
+#include "../UnsupportedOperationException/UnsupportedOperationException.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+
+using namespace Java::Lang;
+
+Integer::Integer() {
+	this->original = 0;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(int original) {
+	this->original = original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(String inputString) {
+	this->original = Integer::parseInt(inputString);
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(const Integer &integer) {
+	this->original = integer.original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::~Integer() {
+	if (this->originalString != nullptr) {
+		free(this->originalString);
+	}
+}
+
+char Integer::charValue() const {
+	string convertResult;
+    asprintf(&convertResult, "%d", this->original);
+	char result;
+    if (convertResult == "") {
+        result = '\0';
+    } else {
+        result = convertResult[0];
+    }
+	free(convertResult);
+	return result;
+}
+
+string Integer::stringValue() const {
+	return this->originalString;
+}
+
+short Integer::shortValue() const {
+	return (short) this->original;
+}
+
+int Integer::intValue() const {
+	return this->original;
+}
+
+long Integer::longValue() const {
+	return (long) this->original;
+}
+
+float Integer::floatValue() const {
+	return (float) this->original;
+}
+
+double Integer::doubleValue() const {
+	return (double) this->original;
+}
+
+Integer &Integer::operator=(const Integer &target) {
+	this->original = target.original;
+	free(this->originalString);
+    asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer Integer::operator+(const Integer &target) {
+	return this->original + target.original;
+}
+
+Integer Integer::operator-(const Integer &target) {
+	return this->original - target.original;
+}
+
+boolean Integer::operator==(const Integer &target) const {
+	return this->original == target.original;
+}
+
+boolean Integer::operator!=(const Integer &target) const {
+	return this->original != target.original;
+}
+
+boolean Integer::operator<(const Integer &target) const {
+	return this->original < target.original;
+}
+
+boolean Integer::operator>(const Integer &target) const {
+	return this->original > target.original;
+}
+
+boolean Integer::operator<=(const Integer &target) const {
+	return this->original <= target.original;
+}
+
+boolean Integer::operator>=(const Integer &target) const {
+	return this->original >= target.original;
+}
+
+Integer Integer::operator/(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE / -1 would trap
+		return (int) (0U - (unsigned int) this->original);
+	}
+	return this->original / target.original;
+}
+
+Integer Integer::operator*(const Integer &target) {
+	return this->original * target.original;
+}
+
+Integer Integer::operator%(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE % -1 would trap
+		return 0;
+	}
+	return this->original % target.original;
+}
+
+Integer &Integer::operator+=(const Integer &target) {
+	this->original += target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator-=(const Integer &target) {
+	this->original -= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator/=(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	this->original = (*this / target).original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator*=(const Integer &target) {
+	this->original *= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator%=(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	this->original = (*this % target).original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+int Integer::bitCount(int inputInt) {
+	String inputInBinary = Integer::toBinaryString(inputInt);
+	int resultBitCount = 0;
+	int index;
+	for (index = 0; index < inputInBinary.length(); index++) {
+		if (inputInBinary.charAt(index) == '1') {
+			resultBitCount++;
+		}
+	}
+	
+	return resultBitCount;
+}
+
+byte Integer::byteValue() {
+	return static_cast<byte> (this->original);
+}
+
+int Integer::compare(int inputInt1, int inputInt2) {
+	if (inputInt1 < inputInt2) {
+		return -1;
+	}
+	
+	if (inputInt1 > inputInt2) {
+		return 1;
+	}
+	
+	return 0;
+}
+
+int Integer::compareTo(const Integer &anotherInteger) const {
+	return this->compare(this->original, anotherInteger.intValue());
+}
+
+int Integer::compareUnsigned(int intA, int intB) {
+	return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);
+}
+
+Integer Integer::decode(String inputString) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	boolean isNegative = false;
+	int base = 10;
+	char sign = inputString.charAt(0);
+	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+		isNegative = true;
+		inputString = inputString.getStringFromIndex(1);
+	}
+	
+	if (inputString.charAt(0) == '0') {
+		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
+			base = 16;
+		} else {
+			base = 8;
+		}
+	}
+	
+	int result = parseInt(inputString, base);
+	if (isNegative) {
+		return static_cast<Integer>(-result);
+	}
+	return static_cast<Integer>(result);
+}
+
+int Integer::divideUnsigned(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (int) ( Integer::toUnsignedLong(dividend) / Integer::toUnsignedLong(divisor));
+}
+
+// Integer Integer::getInteger(String inputString) {
+
+
+// }
+
+// Integer Integer::getInteger(String inputString, int inputInt) {
+
+
+// }
+
+// Integer Integer::getInteger(String inputString, Integer inputInteger) {
+
+
+// }
+
+
+int Integer::highestOneBit(int inputInt) {
+	inputInt |= ( inputInt >> 1 );
+	inputInt |= ( inputInt >> 2 );
+	inputInt |= ( inputInt >> 4 );
+	inputInt |= ( inputInt >> 8 );
+	inputInt |= ( inputInt >> 16 );
+	
+	return inputInt - ((unsigned int) inputInt >> 1 );
+}
+
+int Integer::lowestOneBit(int inputInt) {
+	return inputInt & -inputInt;
+}
+
+int Integer::max(int intA, int intB) {
+	return Math::max(intA, intB);
+}
+
+int Integer::min(int intA, int intB) {
+	return Math::min(intA, intB);
+}
+
+int Integer::numberOfLeadingZeros(int inputInt) {
+	if (inputInt == 0) {
+		return 32;
+	}
+	
+	int numberOfZero = 1;
+	
+	if ((unsigned int) inputInt >> 16 == 0) {
+		numberOfZero += 16;
+		inputInt <<= 16;
+	}
+	
+	if ((unsigned int) inputInt >> 24 == 0) {
+		numberOfZero += 8;
+		inputInt <<= 8;
+	}
+	
+	if ((unsigned int) inputInt >> 28 == 0) {
+		numberOfZero += 4;
+		inputInt <<= 4;
+	}
+	
+	if ((unsigned int) inputInt >> 30 == 0) {
+		numberOfZero += 2;
+		inputInt <<= 2;
+	}
+	
+	numberOfZero -= (unsigned int) inputInt >> 31;
+	
+	return numberOfZero;
+}
+
+int Integer::numberOfTrailingZeros(int inputInt) {
+	if (inputInt == 0) {
+		return 32;
+	}
+	
+	String inputInBinary = Integer::toBinaryString(inputInt);
+	int lastIndexOfOneBit = inputInBinary.lastIndexOf('1');
+	int numberOfTrailingZeros = inputInBinary.length() - lastIndexOfOneBit - 1;
+	return numberOfTrailingZeros;
+}
+
+int Integer::parseInt(String inputString, int radix) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		throw NumberFormatException("radix out of range");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	boolean isNegative = false;
+	char sign = inputString.charAt(0);
+	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+		isNegative = true;
+		inputString = inputString.getStringFromIndex(1);
+	}
+	
+	unsigned long unsignedResult = 0;
+	try {
+		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+	}
+	catch (const std::invalid_argument &e) {
+		throw NumberFormatException("Not a number");
+	}
+	catch (const std::out_of_range &e) {
+		throw NumberFormatException("Integer out of range");
+	}
+	
+	long result = unsignedResult;
+	
+	if (isNegative) {
+		result = -unsignedResult;
+	}
+	
+	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {
+		throw NumberFormatException("Integer out of range");
+	}
+	
+	return (int) result;
+}
+
+int Integer::parseInt(String inputString) {
+	return Integer::parseInt(inputString, 10);
+}
+
+int Integer::parseUnsignedInt(String inputString, int radix) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		throw NumberFormatException("radix out of range");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	char sign = inputString.charAt(0);
+	
+	
+	if (( isdigit(sign)) == 0) {
+		if (sign == '-') {
+			throw NumberFormatException("Illegal leading minus sign");
+		}
+		
+		if (sign == '+') {
+			inputString = inputString.getStringFromIndex(1);
+		}
+	}
+	
+	unsigned long unsignedResult = 0;
+	
+	try {
+		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+	} catch (const std::invalid_argument &e) {
+		throw NumberFormatException("Not a number");
+	} catch (const std::out_of_range &e) {
+		throw NumberFormatException("Unsigned integer out of range");
+	}
+	
+	long result = unsignedResult;
+	
+	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
+		throw NumberFormatException("Unsigned integer out of range");
+	}
+	
+	return (int) result;
+}
+
+int Integer::parseUnsignedInt(String inputString) {
+	return Integer::parseUnsignedInt(inputString, 10);
+}
+
+int Integer::remainderUnsigned(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (int) ( toUnsignedLong(dividend) % toUnsignedLong(divisor));
+}
+
+int Integer::reverse(int inputInt) {
+	inputInt = ( inputInt & 0x55555555 ) << 1
+	           | (((unsigned int) inputInt >> 1 ) & 0x55555555);
+	
+	inputInt = ( inputInt & 0x33333333 ) << 2
+	           | (((unsigned int) inputInt >> 2 ) & 0x33333333);
+	
+	inputInt = ( inputInt & 0x0f0f0f0f ) << 4
+	           | (((unsigned int) inputInt >> 4 ) & 0x0f0f0f0f);
+	
+	inputInt = ( inputInt << 24 ) | (( inputInt & 0xff00 ) << 8 )
+	           | (((unsigned int) inputInt >> 8 ) & 0xff00 )
+	           | ((unsigned int) inputInt >> 24 );
+	
+	return inputInt;
+}
+
+int Integer::reverseBytes(int inputInt) {
+	inputInt = (((unsigned int) inputInt >> 24 ))
+	           | (( inputInt >> 8 ) & 0xFF00 )
+	           | (( inputInt << 8 ) & 0xFF0000 )
+	           | (( inputInt << 24 ));
+	
+	return inputInt;
+}
+
+int Integer::rotateLeft(int inputInt, int distance) {
+	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
+	return inputInt;
+}
+
+int Integer::rotateRight(int inputInt, int distance) {
+	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
+}
+
+String Integer::toString() const {
+	return this->originalString;
+}
+
+long Integer::toUnsignedLong(int inputInt) {
+	// Make the overload bits is 0 to make sure inputInt in 32 bit type.
+	return ((long) inputInt ) & 0xffffffff;
+}
+
+boolean Integer::equals(Integer object) {
+	return this->original == object.intValue();
+}
+
+int Integer::hashCode(int inputInt) {
+	return inputInt;
+}
+
+int Integer::hashCode() const {
+	return Integer::hashCode(this->original);
+}
+
+int Integer::signum(int inputInt) {
+	if (inputInt == 0) {
+		return 0;
+	}
+	
+	if (inputInt > 0) {
+		return 1;
+	}
+	
+	return -1;
+}
+
+int Integer::sum(int intA, int intB) {
+	return intA + intB;
+}
+
+String Integer::toBinaryString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 2);
+}
+
+String Integer::toUnsignedString(int inputInt, int radix) {
+	if (inputInt == 0) {
+		return String("0");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		radix = 10;
+	}
+	
+	std::stringstream stream;
+	String result;
+	
+	switch (radix) {
+		case 2:
+			// TODO change to java.util.BitSet
+			result = std::bitset<32>((unsigned long long int) Integer::toUnsignedLong(inputInt)).to_string();
+			result = result.getStringFromIndex(result.indexOf('1'));
+			return result;
+		case 8:
+			stream << std::oct << Integer::toUnsignedLong(inputInt);
+			result = stream.str();			
+			result.replace(',', '\0');
+			return result;
+		case 16:
+			stream << std::hex << Integer::toUnsignedLong(inputInt);
+			result = stream.str();
+			result.replace(',', '\0');
+			return result;;
+		case 10:
+			stream << std::dec << Integer::toUnsignedLong(inputInt);
+			result = stream.str();
+			result.replace(',', '\0');
+			return result;
+		default:
+			throw UnsupportedOperationException("Haven't support this radix yet");
+	}
+}
+
+String Integer::toUnsignedString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 10);
+}
+
+String Integer::toHexString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 16);
+}
+
+String Integer::toOctalString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 8);
+}
+
+Integer Integer::valueOf(int inputInt) {
+	return Integer(inputInt);
+}
+
+Integer Integer::valueOf(String inputString) {
+	return Integer::valueOf(Integer::parseInt(inputString));
+}
+
+Integer Integer::valueOf(String inputString, int radix) {
+	return Integer::valueOf(Integer::parseInt(inputString, radix));
+}
+
+String Integer::toString(int inputInt) {
+	return Integer::toString(inputInt, 10);
+}
+
+String Integer::toString(int inputInt, int radix) {
+	if (inputInt < 0) {
+		inputInt = -inputInt;
+		return String("-") + Integer::toUnsignedString(inputInt, radix);
+	}
+	
+	return Integer::toUnsignedString(inputInt, radix);
+}
-- 
2.43.0


From 2ca7b26de679c9253cc45aa02016c2c508f2864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 16/40] fix: Short division and remainder must throw
 ArithmeticException for a zero divisor

---
 library/Java/Lang/Short/Short.cpp | 531 +++++++++++++++---------------
 1 file changed, 269 insertions(+), 262 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..62544d4 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -1,262 +1,269 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "Short.hpp"
-
-using namespace Java::Lang;
-
-/**
- * Integer initialization
- *
- * @param original
- */
-Short::Short() {
-	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-/**
- * Short initialization
- *
- * @param original
- */
-Short::Short(short original) {
-	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-/**
- * Short initialization
- *
- * @param original
- */
-Short::Short(const Short &shortNumber) {
-	this->original = shortNumber.original;
-    asprintf(&this->originalString, "%d", this->original);
-}
-
-Short::~Short() {
-	if (this->originalString != nullptr) {
-		free(this->originalString);
-	}
-}
-
-/**
- * Parse short
- *
- * @param target
- * @return short
- */
-Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
-}
-
-/**
- * Short to String
- *
- * @return String
- */
-String Short::toString() const {
-	return this->originalString;
-}
-
-/**
- * Short to Char
- *
- * @return char
- */
-char Short::charValue() const {
-    string stringFromShort;
-    char result;
-    asprintf(&stringFromShort, "%d", this->original);
-    if (stringFromShort == "") {
-        result = '\0';
-    } else {
-        result = stringFromShort[0];
-    }
-    free(stringFromShort);
-    return result;
-}
-
-/**
- * Short value of Short
- *
- * @return short
- */
-short Short::shortValue() const {
-	return this->original;
-}
-
-/**
- * Integer value of short
- *
- * @return int
- */
-int Short::intValue() const {
-	return this->original;
-}
-
-/**
- * Long value of short
- *
- * @return int
- */
-long Short::longValue() const {
-	return this->original;
-}
-
-/**
- * Short value in float
- *
- * @return int
- */
-float Short::floatValue() const {
-	return (float)this->original;
-}
-
-/**
- * Short value in double
- *
- * @return int
- */
-double Short::doubleValue() const {
-	return (double)this->original;
-}
-
-/**
- * Assign value of this object same as value of target object
- *
- * @param target
- * @return Short
- */
-Short Short::operator=(const Short &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-/**
- * Make a summation with target Short
- *
- * @return Integer
- */
-Short Short::operator+(const Short &target) {
-	return this->original + target.original;
-}
-
-/**
- * Make a subtraction with target Shortr
- *
- * @return Short
- */
-Short Short::operator-(const Short &target) {
-	return this->original - target.original;
-}
-
-/**
- * Make a multiple from this Short with target
- *
- * @return Short
- */
-Short Short::operator*(const Short &target) {
-	return ( this->original * target.original );
-}
-
-/**
- *  Make a division from this Short with target
- *
- * @return Short
- */
-Short Short::operator/(const Short &target) {
-	return (this->original / target.original);
-}
-
-/**
- * Make a modulo from this Short with target
- *
- * @return Short
- */
-Short Short::operator%(const Short &target) {
-	return (this->original % target.original);
-}
-
-/**
- * Compare this Long is equal target
- *
- * @return bool
- */
-boolean Short::operator==(const Short &target) const {
-	return this->original == target.original;
-}
-
-/**
- * Compare this Short is not equal target
- *
- * @return bool
- */
-boolean Short::operator!=(const Short &target) const {
-	return !this->operator==(target);
-}
-
-/**
- * Compare this Short is less than target
- *
- * @return bool
- */
-boolean Short::operator<(const Short &target) const {
-	return this->original < target.original;
-}
-
-/**
- * Compare this Short is more than target
- *
- * @return bool
- */
-boolean Short::operator>(const Short &target) const {
-	return this->original > target.original;
-}
-
-/**
- * Compare this Short is equal or less than target
- *
- * @return bool
- */
-boolean Short::operator<=(const Short &target) const {
-	return this->original <= target.original;
-}
-
-/**
- *  Compare this Short is equal or more than target
- *
- * @return bool
- */
-boolean Short::operator>=(const Short &target) const {
-	return this->original >= target.original;
-}
-
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+
+using namespace Java::Lang;
+
+/**
+ * Integer initialization
+ *
+ * @param original
+ */
+Short::Short() {
+	this->original = 0;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+/**
+ * Short initialization
+ *
+ * @param original
+ */
+Short::Short(short original) {
+	this->original = original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+/**
+ * Short initialization
+ *
+ * @param original
+ */
+Short::Short(const Short &shortNumber) {
+	this->original = shortNumber.original;
+    asprintf(&this->originalString, "%d", this->original);
+}
+
+Short::~Short() {
+	if (this->originalString != nullptr) {
+		free(this->originalString);
+	}
+}
+
+/**
+ * Parse short
+ *
+ * @param target
+ * @return short
+ */
+Short Short::parseShort(String target) {
+    short result;
+    sscanf(target.toCharPointer(), "%hi", &result);
+	return (Short) result;
+}
+
+/**
+ * Short to String
+ *
+ * @return String
+ */
+String Short::toString() const {
+	return this->originalString;
+}
+
+/**
+ * Short to Char
+ *
+ * @return char
+ */
+char Short::charValue() const {
+    string stringFromShort;
+    char result;
+    asprintf(&stringFromShort, "%d", this->original);
+    if (stringFromShort == "") {
+        result = '\0';
+    } else {
+        result = stringFromShort[0];
+    }
+    free(stringFromShort);
+    return result;
+}
+
+/**
+ * Short value of Short
+ *
+ * @return short
+ */
+short Short::shortValue() const {
+	return this->original;
+}
+
+/**
+ * Integer value of short
+ *
+ * @return int
+ */
+int Short::intValue() const {
+	return this->original;
+}
+
+/**
+ * Long value of short
+ *
+ * @return int
+ */
+long Short::longValue() const {
+	return this->original;
+}
+
+/**
+ * Short value in float
+ *
+ * @return int
+ */
+float Short::floatValue() const {
+	return (float)this->original;
+}
+
+/**
+ * Short value in double
+ *
+ * @return int
+ */
+double Short::doubleValue() const {
+	return (double)this->original;
+}
+
+/**
+ * Assign value of this object same as value of target object
+ *
+ * @param target
+ * @return Short
+ */
+Short Short::operator=(const Short &target) {
+	this->original = target.original;
+	free(this->originalString);
+    asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+/**
+ * Make a summation with target Short
+ *
+ * @return Integer
+ */
+Short Short::operator+(const Short &target) {
+	return this->original + target.original;
+}
+
+/**
+ * Make a subtraction with target Shortr
+ *
+ * @return Short
+ */
+Short Short::operator-(const Short &target) {
+	return this->original - target.original;
+}
+
+/**
+ * Make a multiple from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator*(const Short &target) {
+	return ( this->original * target.original );
+}
+
+/**
+ *  Make a division from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (this->original / target.original);
+}
+
+/**
+ * Make a modulo from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (this->original % target.original);
+}
+
+/**
+ * Compare this Long is equal target
+ *
+ * @return bool
+ */
+boolean Short::operator==(const Short &target) const {
+	return this->original == target.original;
+}
+
+/**
+ * Compare this Short is not equal target
+ *
+ * @return bool
+ */
+boolean Short::operator!=(const Short &target) const {
+	return !this->operator==(target);
+}
+
+/**
+ * Compare this Short is less than target
+ *
+ * @return bool
+ */
+boolean Short::operator<(const Short &target) const {
+	return this->original < target.original;
+}
+
+/**
+ * Compare this Short is more than target
+ *
+ * @return bool
+ */
+boolean Short::operator>(const Short &target) const {
+	return this->original > target.original;
+}
+
+/**
+ * Compare this Short is equal or less than target
+ *
+ * @return bool
+ */
+boolean Short::operator<=(const Short &target) const {
+	return this->original <= target.original;
+}
+
+/**
+ *  Compare this Short is equal or more than target
+ *
+ * @return bool
+ */
+boolean Short::operator>=(const Short &target) const {
+	return this->original >= target.original;
+}
+
-- 
2.43.0


From baa035e3b1b7834e4229801365f0072b5c249f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 17/40] fix: String::charAt and getStringFromIndex must reject
 every index of an empty string

---
 library/Java/Lang/String/String.cpp | 1814 +++++++++++++--------------
 1 file changed, 907 insertions(+), 907 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..c10a167 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -1,907 +1,907 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "String.hpp"
-#include "../StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
-#include "../StringBuilder/StringBuilder.hpp"
-#include "../StringBuffer/StringBuffer.hpp"
-#include "../IllegalArgumentException/IllegalArgumentException.hpp"
-
-using namespace Java::Lang;
-
-std::wstring multiByteStringToWideString(const std::string &input) {
-    setlocale(LC_CTYPE, "");
-    try {
-        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
-    } catch (std::exception &exception) {
-        std::wstring emptyString;
-        return emptyString;
-    }
-}
-
-std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
-    try {
-        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
-    } catch (std::exception &exception) {
-        std::string emptyString;
-        return emptyString;
-    }
-}
-
-std::string toUpper(const std::string &input) {
-	std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
-	return wideStringToMultiByteString(wideString);
-}
-
-std::string toLower(const std::string &input) {
-    std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
-    return wideStringToMultiByteString(wideString);
-}
-
-String::String() = default;
-
-String::~String() = default;
-
-String::String(string original, int length) {
-	this->original = std::string(original, original + (size_t) length);
-}
-
-String::String(const_string original, int length) {
-    this->original = std::string(original, original + (size_t) length);
-}
-
-String::String(const Array<char> &charArray) {
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = 0; i < charArray.length; i++) {
-		this->original += charArray[i];
-	}
-}
-
-String::String(const Array<byte> &byteArray) {
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = 0; i < byteArray.length; i++) {
-		this->original += byteArray[i];
-	}
-}
-
-String::String(const String &target) {
-	this->original = target.original;
-}
-
-String::String(const StringBuilder &stringBuilder) {
-	this->original = std::string(stringBuilder.toString().toCharPointer());
-}
-
-String::String(const StringBuffer &stringBuffer) {
-	this->original = std::string(stringBuffer.getValue().toCharPointer());
-}
-
-String::String(const Array<char> &array, int offset, int length) {
-	if (offset < 0) {
-		throw StringIndexOutOfBoundsException(offset);
-	}
-	if (length < 0) {
-		throw StringIndexOutOfBoundsException(length);
-	}
-	if (offset > array.length - length) {
-		throw StringIndexOutOfBoundsException(offset + length);
-	}
-
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = offset; i < offset + length; ++i) {
-		this->original.push_back(array[i]);
-	}
-}
-
-String::String(const Array<byte> &array, int offset, int length) {
-	if (offset < 0) {
-		throw StringIndexOutOfBoundsException(offset);
-	}
-	if (length < 0) {
-		throw StringIndexOutOfBoundsException(length);
-	}
-	if (offset > array.length - length) {
-		throw StringIndexOutOfBoundsException(offset + length);
-	}
-
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = offset; i < offset + length; i++) {
-		this->original.push_back((char) array[i]);
-	}
-}
-
-int String::getSize() const {
-	return this->original.size();
-}
-
-String String::clone() {
-	return this->original;
-}
-
-char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
-		throw StringIndexOutOfBoundsException("String index out of range");
-	}
-	return (this->original[index]);
-}
-
-int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
-}
-
-int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
-}
-
-String String::concat(const String &target) const {
-    return this->original + target.original;
-}
-
-boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
-	if (found != std::string::npos) {
-		return true;
-	} else {
-		return false;
-	}
-}
-
-boolean String::contains(const String &input) const {
-	std::size_t found = this->original.find(input.toSTLString());
-	if (found != std::string::npos) {
-		return true;
-	} else {
-		return false;
-	}
-}
-
-
-Array<byte> String::getBytes() const {
-	Array<byte> bytes;
-	for (int i = 0; i < this->original.size(); ++i) {
-		bytes.push((byte) this->original.c_str()[i]);
-	}
-	return bytes;
-}
-
-String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
-		throw StringIndexOutOfBoundsException(index);
-	}
-	return this->original.substr(index);
-}
-
-boolean String::endsWith(const String &suffixString) const {
-	int suffixLength = suffixString.toString().length();
-	int targetLength = this->original.size();
-	if (targetLength < suffixLength) {
-		return false;
-	}
-	int i;
-	for (i = suffixLength - 1; i >= 0; i--) {
-		if (suffixString[i] != this->original[targetLength - suffixLength + i]) {
-			return false;
-		}
-	}
-	return true;
-}
-
-String String::fromCharArray(const Array<char> &charArray) {
-	return String(charArray);
-}
-
-int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
-	if (found != std::string::npos) {
-		return (int) found;
-	}
-	return -1;
-}
-
-int String::indexOf(int character, int fromIndex) const {
-	if (fromIndex > (int) this->original.size()) {
-		return -1;
-	}
-	if (fromIndex < 0) {
-		return this->indexOf(character);
-	}
-
-	int index = 0;
-	for (index = fromIndex; index < this->original.size(); index++) {
-		if (this->original[index] == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::indexOf(const String &subString) const {
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
-	std::size_t found = this->original.find(subString.original);
-	if (found != std::string::npos) {
-		return (int) found;
-	}
-	return -1;
-}
-
-int String::indexOf(const String &subString, int fromIndex) const {
-	if (fromIndex < 0) {
-		return this->indexOf(subString);
-	}
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
-	if (fromIndex > (this->original.size() - 1) || (this->original.size()) < (subString.original.size())) {
-		return -1;
-	}
-	std::string stringFromIndex = (this)->original.substr(fromIndex);
-	std::size_t found = stringFromIndex.find(subString.original);
-	if (found != std::string::npos) {
-		return (int) (found + fromIndex);
-	}
-	return -1;
-}
-
-boolean String::isEmpty() const {
-	return (boolean) this->original.empty();
-}
-
-int String::lastIndexOf(int character) const {
-	int index = 0;
-	for (index = (int) this->original.size() - 1; index >= 0; index--) {
-		if (this->charAt(index) == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::lastIndexOf(int character, int fromIndex) const {
-	if (fromIndex < 0) {
-		return -1;
-	}
-	if (fromIndex > this->original.size() - 1) {
-		return this->lastIndexOf(character);
-	}
-
-	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
-		if (this->charAt(index) == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::lastIndexOf(const String &subString) const {
-	String reversedString = subString;
-	std::reverse(reversedString.original.begin(), reversedString.original.end());
-	std::string currentReversedString = this->original;
-	std::reverse(currentReversedString.begin(), currentReversedString.end());
-	std::size_t found = currentReversedString.find(reversedString.original);
-	if (found == std::string::npos) {
-		return -1;
-	}
-	return ((int) this->original.size() - (int) (found + subString.original.size()));
-}
-
-int String::lastIndexOf(const String &subString, int fromIndex) const {
-
-	if (fromIndex < 0) {
-		return -1;
-	}
-	if (fromIndex > this->original.size() - 1) {
-		return this->lastIndexOf(subString);
-	}
-	std::string thisStringReversed = this->original;
-	std::reverse(thisStringReversed.begin(), thisStringReversed.end());
-	int indexToCreatSubString = (int) this->original.size() - fromIndex - subString.length();
-	if (indexToCreatSubString > this->original.size()) {
-		return -1;
-	}
-	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
-	std::reverse(reversedString.begin(), reversedString.end());
-	auto result = (int) subStringFromIndex.find(reversedString);
-	if (result == -1) {
-		return result;
-	}
-
-	// Re-calculate first character of str
-	result = fromIndex - result;
-	return result;
-}
-
-String String::replace(char oldChar, char newChar) const {
-	std::string copyString = (std::string) this->original;
-	for (int index = 0; index < this->original.size(); index++) {
-		if (this->original[index] == oldChar) {
-			copyString[index] = newChar;
-		}
-	}
-	return copyString;
-}
-
-String String::replaceAll(const String &regex, const String &replacement) const {
-	// TODO (anhnt) fix this later, temporary use replace, need Pattern
-	return replace(regex, replacement);
-}
-
-Array<String> String::split(const String &regex) const {
-	// TODO (anhnt) fix this later, temporary use replace, need Pattern
-	Array<String> strings;
-	if (this->original.c_str() == nullptr || regex.original.c_str() == nullptr) {
-		return strings;
-	}
-	size_t pos = 0;
-	size_t pre = 0;
-	std::string targetString = regex.original;
-	std::string result;
-	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
-
-		for (; pre < pos; pre++) {
-			result += this->original[pre];
-		}
-		strings.push(result);
-		pre += targetString.size();
-		pos += targetString.length();
-		result = "";
-	}
-	for (; pre < this->length(); pre++) {
-		result += this->original[pre];
-	}
-	strings.push(result);
-	return strings;
-}
-
-boolean String::startsWith(const String &prefix) const {
-	if (this->original.c_str() == nullptr || prefix.original.c_str() == nullptr) {
-		return false;
-	}
-	int lengthOriginal = (int) this->original.size();
-	int lengthPrefix = (int) prefix.original.size();
-	if (lengthOriginal < lengthPrefix) {
-		return false;
-	}
-	for (int index = 0; index < lengthPrefix; index++) {
-		if (this->original[index] != prefix.original[index]) {
-			return false;
-		}
-	}
-	return true;
-}
-
-boolean String::startsWith(String prefix, int thisOffset) const {
-	if (thisOffset < 0) {
-		return false;
-	}
-	int originalLength = (int) this->original.size();
-	int prefixLength = (int) prefix.original.size();
-	if (originalLength < prefixLength || thisOffset > (originalLength - prefixLength)) {
-		return false;
-	}
-
-	int firstIndex = 0, secondIndex = thisOffset;
-	for (; firstIndex < prefixLength; firstIndex++) {
-		if (prefix.original[firstIndex] != this->original[secondIndex]) {
-			return false;
-		}
-		secondIndex++;
-	}
-	return true;
-}
-
-Array<char> String::toCharArray() const {
-	Array<char> chars;
-	for (char c : this->original) {
-		chars.push(c);
-	}
-	return chars;
-}
-
-string String::toCharPointer() const {
-	return (string) this->original.c_str();
-}
-
-std::string String::toSTLString() const {
-    return this->original;
-}
-
-String String::toString() const {
-	return *this;
-}
-
-String String::toLowerCase() const {
-	return toLower(this->original);
-}
-
-String String::toUpperCase() const {
-	return toUpper(this->original);
-}
-
-String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
-	if (std::string::npos == first) {
-		return "";
-	}
-	size_t last = this->original.find_last_not_of(' ');
-	return this->original.substr(first, (last - first + 1));
-}
-
-String String::valueOf(boolean target) {
-	if (target) {
-		return (string) "true";
-	}
-	return (string) "false";
-}
-
-String String::valueOf(char charValue) {
-	string pointerHolder;
-	if (charValue == '\0') {
-		pointerHolder = stringCopy("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = charValue;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	String output = pointerHolder;
-	free(pointerHolder);
-	return output;
-}
-
-String String::valueOf(string stringValue) {
-	if (stringValue == nullptr) {
-		return (string) "";
-	}
-	return stringValue;
-}
-
-String String::valueOf(short shortValue) {
-	String result = std::to_string(shortValue);
-	return result;
-}
-
-String String::valueOf(int intValue) {
-	String result = std::to_string(intValue);
-	return result;
-}
-
-String String::valueOf(long longValue) {
-	String result = std::to_string(longValue);
-	return result;
-}
-
-String String::valueOf(long long longValue) {
-    String result = std::to_string(longValue);
-    return result;
-}
-
-String String::valueOf(float floatValue) {
-	string pointerHolder;
-	asprintf(&pointerHolder, "%g", floatValue);
-	String result = pointerHolder;
-	free(pointerHolder);
-	return result;
-}
-
-String String::valueOf(double doubleValue) {
-	int precision = 15;
-	string pointerHolder = (string) calloc(1079, sizeof(char));
-	if (doubleValue == 0.0f && doubleValue < 0) {
-		sprintf(pointerHolder, "-%.*f", precision, doubleValue);
-	} else {
-		sprintf(pointerHolder, "%.*f", precision, doubleValue);
-	}
-	String result = pointerHolder;
-	free(pointerHolder);
-	return result;
-}
-
-String String::subString(int beginIndex) const {
-	return this->subString(beginIndex, (int) this->original.length());
-}
-
-String String::subString(int beginIndex, int endIndex) const {
-	if (this->original.c_str() == nullptr) {
-		return "";
-	}
-	int lengthTarget = this->length();
-	if (beginIndex > endIndex || beginIndex < 0 || beginIndex > lengthTarget || endIndex < 0 ||
-	    endIndex > lengthTarget) {
-		return "";
-	}
-	std::string result = this->original.substr(beginIndex, endIndex - beginIndex);
-	return result;
-}
-
-boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
-}
-
-String String::copyValueOf(const Array<char> &charArray) {
-	return String(charArray);
-}
-
-String String::copyValueOf(const Array<char> &charArray, int offset, int count) {
-	return String(charArray, offset, count);
-}
-
-boolean String::equals(const String &anotherString) const {
-    return this->original == anotherString.original;
-}
-
-boolean String::equalsIgnoreCase(const String &anotherString) const {
-	return this->compareToIgnoreCase(anotherString) == 0;
-}
-
-long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
-	}
-	return hashCode;
-}
-
-boolean String::regionMatches(int thisOffset,
-                              const String &otherString, int otherOffset, int len) const {
-	return this->regionMatches(false, thisOffset, otherString, otherOffset, len);
-}
-
-boolean String::regionMatches(boolean ignoreCase, int thisOffset,
-                              const String &otherString, int otherOffset, int len) const {
-	String thisString = this->subString(thisOffset, thisOffset + len);
-	var subString = otherString.subString(otherOffset, otherOffset + len);
-	if (ignoreCase) {
-		return thisString.compareToIgnoreCase(subString) == 0;
-	}
-	return thisString.compareTo(subString) == 0;
-}
-
-void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination, int destinationBegin) const {
-	if (sourceBegin < 0) {
-		throw StringIndexOutOfBoundsException(sourceBegin);
-	}
-	if (sourceBegin > sourceEnd) {
-		throw StringIndexOutOfBoundsException(sourceEnd - sourceBegin);
-	}
-	if (sourceEnd > this->length()) {
-		throw StringIndexOutOfBoundsException(sourceEnd);
-	}
-	if (destinationBegin < 0) {
-		throw StringIndexOutOfBoundsException(destinationBegin);
-	}
-	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length) {
-		throw StringIndexOutOfBoundsException(destinationBegin
-		                                      + (sourceEnd - sourceBegin));
-	}
-	int len = sourceEnd - sourceBegin;
-	int newDestinationSize = destinationBegin + len;
-	for (int index = 0; index < newDestinationSize; index++) {
-		if (index >= destinationBegin && index < destinationBegin + len) {
-			destination[index] = this->charAt(sourceBegin);
-			sourceBegin++;
-			continue;
-		}
-		destination[index] = destination[index];
-	}
-}
-
-String String::replace(const CharSequence &target, const CharSequence &replacement) const {
-	if ((string) target.toString().toCharPointer() == nullptr ||
-	    (string) replacement.toString().toCharPointer() == nullptr ||
-	    (string) this->toString().toCharPointer() == nullptr) {
-		return "";
-	}
-	size_t pos = 0;
-	size_t pre = 0;
-	std::string targetString = target.toString().original;
-	std::string replaceString = replacement.toString().original;
-	std::string result;
-	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
-		for (; pre < pos; pre++) {
-			result += this->original[pre];
-		}
-		result += replaceString;
-		pre += targetString.size();
-		pos += targetString.length();
-	}
-	for (; pre < this->length(); pre++) {
-		result += this->original[pre];
-	}
-	return result;
-}
-
-String String::replaceFirst(const String &regex, const String &replacement) const {
-	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
-}
-
-Array<String> String::split(const String &regex, int limit) const {
-	// TODO (anhnt) fix this later, temporary, need Pattern
-	Array<String> stringArrayNoLimit = this->split(regex);
-	if (limit == 1) {
-		return Array<String>{*this};
-	}
-	if (limit > stringArrayNoLimit.length || limit <= 0) {
-		return stringArrayNoLimit;
-	}
-	int i = 0;
-	Array<String> strings;
-	for (; i < limit - 1; i++) {
-		strings.push(stringArrayNoLimit[i]);
-	}
-	String stringSupport;
-	for (i = limit - 1; i < stringArrayNoLimit.length - 1; i++) {
-		stringSupport += stringArrayNoLimit[i] + regex;
-	}
-	stringSupport += stringArrayNoLimit[stringArrayNoLimit.length - 1];
-	strings.push(stringSupport);
-	return strings;
-}
-
-String String::print(const String &format, bool value) {
-	if (format.original == "%b") {
-		return (value ? "true" : "false");
-	}
-	if (format.original == "%B") {
-		return (value ? "TRUE" : "FALSE");
-	}
-	return "";
-}
-
-String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
-}
-
-String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
-}
-
-String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
-}
-
-String String::print(const String &format, Boolean value) {
-	return print(format, value.booleanValue());
-}
-
-String String::print(const String &format, Short value) {
-	return String::print(format, value.shortValue());
-}
-
-String String::print(const String &format, Integer value) {
-	return String::print(format, value.intValue());
-}
-
-String String::print(const String &format, Long value) {
-	return String::print(format, value.longValue());
-}
-
-String String::print(const String &format, Float value) {
-	return String::print(format, value.floatValue());
-}
-
-String String::print(const String &format, Double value) {
-	return String::print(format, value.doubleValue());
-}
-
-String String::print(const String &format, String value) {
-	return String::print(format, value.toCharPointer());
-}
-
-String String::format(const String &format) {
-	const String pattern = "%([[:digit:]]+)?([-#+0 ]*)?([[:digit:]]+)?(\\" \
-            ".[[:digit:]]+)?(l){0,2}([diuoxXfFeEgGaAcspnbB%])";
-	String result;
-	string inputStringPtr = format.toCharPointer();
-	int inputStringLength = format.getSize();
-	int inputStringOffset = 0;
-	int errorCode = 0;
-	regex_t regex;
-	errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
-	while (errorCode == 0 && inputStringOffset < format.getSize()) {
-		regmatch_t matchedResult[16] = {0}; // max 16 groups
-		errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
-		if (errorCode != 0) {
-			result += String(inputStringPtr, inputStringLength);
-			break;
-		}
-		int unmatchedStringLength = matchedResult[0].rm_so;
-		int matchedStringLength = matchedResult[0].rm_eo - matchedResult[0].rm_so;
-		if (unmatchedStringLength > 0) {
-			result += String(inputStringPtr, unmatchedStringLength);
-		}
-		if (matchedStringLength > 0) {
-			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
-			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
-				regfree(&regex);
-				throw InterruptedException("Missing arguments.");
-			} else {
-				result += "%";
-			}
-		}
-		inputStringPtr += matchedResult[0].rm_eo;
-		inputStringOffset += matchedResult[0].rm_eo;
-		inputStringLength -= matchedResult[0].rm_eo;
-	}
-	regfree(&regex);
-	return result;
-}
-
-String String::valueOf(const_string constStringValue) {
-	if (std::string(constStringValue).empty()) {
-		return (string) "";
-	}
-	return constStringValue;
-}
-
-String String::valueOf(const String &stringValue) {
-	return stringValue;
-}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "String.hpp"
+#include "../StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
+#include "../StringBuilder/StringBuilder.hpp"
+#include "../StringBuffer/StringBuffer.hpp"
+#include "../IllegalArgumentException/IllegalArgumentException.hpp"
+
+using namespace Java::Lang;
+
+std::wstring multiByteStringToWideString(const std::string &input) {
+    setlocale(LC_CTYPE, "");
+    try {
+        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
+        return convertToWstring.from_bytes(input.c_str());
+    } catch (std::exception &exception) {
+        std::wstring emptyString;
+        return emptyString;
+    }
+}
+
+std::string wideStringToMultiByteString(const std::wstring &input) {
+    setlocale(LC_CTYPE, "");
+    try {
+        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
+        return convertToString.to_bytes(input.c_str());
+    } catch (std::exception &exception) {
+        std::string emptyString;
+        return emptyString;
+    }
+}
+
+std::string toUpper(const std::string &input) {
+	std::wstring wideString = multiByteStringToWideString(input);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
+	return wideStringToMultiByteString(wideString);
+}
+
+std::string toLower(const std::string &input) {
+    std::wstring wideString = multiByteStringToWideString(input);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
+    return wideStringToMultiByteString(wideString);
+}
+
+String::String() = default;
+
+String::~String() = default;
+
+String::String(string original, int length) {
+	this->original = std::string(original, original + (size_t) length);
+}
+
+String::String(const_string original, int length) {
+    this->original = std::string(original, original + (size_t) length);
+}
+
+String::String(const Array<char> &charArray) {
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = 0; i < charArray.length; i++) {
+		this->original += charArray[i];
+	}
+}
+
+String::String(const Array<byte> &byteArray) {
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = 0; i < byteArray.length; i++) {
+		this->original += byteArray[i];
+	}
+}
+
+String::String(const String &target) {
+	this->original = target.original;
+}
+
+String::String(const StringBuilder &stringBuilder) {
+	this->original = std::string(stringBuilder.toString().toCharPointer());
+}
+
+String::String(const StringBuffer &stringBuffer) {
+	this->original = std::string(stringBuffer.getValue().toCharPointer());
+}
+
+String::String(const Array<char> &array, int offset, int length) {
+	if (offset < 0) {
+		throw StringIndexOutOfBoundsException(offset);
+	}
+	if (length < 0) {
+		throw StringIndexOutOfBoundsException(length);
+	}
+	if (offset > array.length - length) {
+		throw StringIndexOutOfBoundsException(offset + length);
+	}
+
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = offset; i < offset + length; ++i) {
+		this->original.push_back(array[i]);
+	}
+}
+
+String::String(const Array<byte> &array, int offset, int length) {
+	if (offset < 0) {
+		throw StringIndexOutOfBoundsException(offset);
+	}
+	if (length < 0) {
+		throw StringIndexOutOfBoundsException(length);
+	}
+	if (offset > array.length - length) {
+		throw StringIndexOutOfBoundsException(offset + length);
+	}
+
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = offset; i < offset + length; i++) {
+		this->original.push_back((char) array[i]);
+	}
+}
+
+int String::getSize() const {
+	return this->original.size();
+}
+
+String String::clone() {
+	return this->original;
+}
+
+char String::charAt(int index) const {
+	if (index < 0 || index >= (int) this->original.size()) {
+		throw StringIndexOutOfBoundsException("String index out of range");
+	}
+	return (this->original[index]);
+}
+
+int String::compareTo(const String &anotherString) const {
+	return strcmp(this->original.c_str(), anotherString.original.c_str());
+}
+
+int String::compareToIgnoreCase(const String &anotherString) const {
+	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+}
+
+String String::concat(const String &target) const {
+    return this->original + target.original;
+}
+
+boolean String::contains(const CharSequence &charSequence) const {
+	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	if (found != std::string::npos) {
+		return true;
+	} else {
+		return false;
+	}
+}
+
+boolean String::contains(const String &input) const {
+	std::size_t found = this->original.find(input.toSTLString());
+	if (found != std::string::npos) {
+		return true;
+	} else {
+		return false;
+	}
+}
+
+
+Array<byte> String::getBytes() const {
+	Array<byte> bytes;
+	for (int i = 0; i < this->original.size(); ++i) {
+		bytes.push((byte) this->original.c_str()[i]);
+	}
+	return bytes;
+}
+
+String String::getStringFromIndex(int index) const {
+	if (index < 0 || index >= (int) this->original.size()) {
+		throw StringIndexOutOfBoundsException(index);
+	}
+	return this->original.substr(index);
+}
+
+boolean String::endsWith(const String &suffixString) const {
+	int suffixLength = suffixString.toString().length();
+	int targetLength = this->original.size();
+	if (targetLength < suffixLength) {
+		return false;
+	}
+	int i;
+	for (i = suffixLength - 1; i >= 0; i--) {
+		if (suffixString[i] != this->original[targetLength - suffixLength + i]) {
+			return false;
+		}
+	}
+	return true;
+}
+
+String String::fromCharArray(const Array<char> &charArray) {
+	return String(charArray);
+}
+
+int String::indexOf(int character) const {
+	string pointerHolder;
+	char target = (char) character;
+	if (target == '\0') {
+		pointerHolder = strdup("");
+	} else {
+		auto *result = (string) calloc(2, sizeof(char));
+		result[0] = target;
+		result[1] = '\0';
+		pointerHolder = result;
+	}
+	std::size_t found = this->original.find(pointerHolder);
+	free(pointerHolder);
+	if (found != std::string::npos) {
+		return (int) found;
+	}
+	return -1;
+}
+
+int String::indexOf(int character, int fromIndex) const {
+	if (fromIndex > (int) this->original.size()) {
+		return -1;
+	}
+	if (fromIndex < 0) {
+		return this->indexOf(character);
+	}
+
+	int index = 0;
+	for (index = fromIndex; index < this->original.size(); index++) {
+		if (this->original[index] == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::indexOf(const String &subString) const {
+	if (this->original.size() == 0 || subString == "") {
+		return -1;
+	}
+	std::size_t found = this->original.find(subString.original);
+	if (found != std::string::npos) {
+		return (int) found;
+	}
+	return -1;
+}
+
+int String::indexOf(const String &subString, int fromIndex) const {
+	if (fromIndex < 0) {
+		return this->indexOf(subString);
+	}
+	if (this->original.size() == 0 || subString == "") {
+		return -1;
+	}
+	if (fromIndex > (this->original.size() - 1) || (this->original.size()) < (subString.original.size())) {
+		return -1;
+	}
+	std::string stringFromIndex = (this)->original.substr(fromIndex);
+	std::size_t found = stringFromIndex.find(subString.original);
+	if (found != std::string::npos) {
+		return (int) (found + fromIndex);
+	}
+	return -1;
+}
+
+boolean String::isEmpty() const {
+	return (boolean) this->original.empty();
+}
+
+int String::lastIndexOf(int character) const {
+	int index = 0;
+	for (index = (int) this->original.size() - 1; index >= 0; index--) {
+		if (this->charAt(index) == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::lastIndexOf(int character, int fromIndex) const {
+	if (fromIndex < 0) {
+		return -1;
+	}
+	if (fromIndex > this->original.size() - 1) {
+		return this->lastIndexOf(character);
+	}
+
+	int index = 0;
+	for (index = fromIndex - 1; index >= 0; index--) {
+		if (this->charAt(index) == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::lastIndexOf(const String &subString) const {
+	String reversedString = subString;
+	std::reverse(reversedString.original.begin(), reversedString.original.end());
+	std::string currentReversedString = this->original;
+	std::reverse(currentReversedString.begin(), currentReversedString.end());
+	std::size_t found = currentReversedString.find(reversedString.original);
+	if (found == std::string::npos) {
+		return -1;
+	}
+	return ((int) this->original.size() - (int) (found + subString.original.size()));
+}
+
+int String::lastIndexOf(const String &subString, int fromIndex) const {
+
+	if (fromIndex < 0) {
+		return -1;
+	}
+	if (fromIndex > this->original.size() - 1) {
+		return this->lastIndexOf(subString);
+	}
+	std::string thisStringReversed = this->original;
+	std::reverse(thisStringReversed.begin(), thisStringReversed.end());
+	int indexToCreatSubString = (int) this->original.size() - fromIndex - subString.length();
+	if (indexToCreatSubString > this->original.size()) {
+		return -1;
+	}
+	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
+	std::string reversedString = subString.toCharPointer();
+	std::reverse(reversedString.begin(), reversedString.end());
+	auto result = (int) subStringFromIndex.find(reversedString);
+	if (result == -1) {
+		return result;
+	}
+
+	// Re-calculate first character of str
+	result = fromIndex - result;
+	return result;
+}
+
+String String::replace(char oldChar, char newChar) const {
+	std::string copyString = (std::string) this->original;
+	for (int index = 0; index < this->original.size(); index++) {
+		if (this->original[index] == oldChar) {
+			copyString[index] = newChar;
+		}
+	}
+	return copyString;
+}
+
+String String::replaceAll(const String &regex, const String &replacement) const {
+	// TODO (anhnt) fix this later, temporary use replace, need Pattern
+	return replace(regex, replacement);
+}
+
+Array<String> String::split(const String &regex) const {
+	// TODO (anhnt) fix this later, temporary use replace, need Pattern
+	Array<String> strings;
+	if (this->original.c_str() == nullptr || regex.original.c_str() == nullptr) {
+		return strings;
+	}
+	size_t pos = 0;
+	size_t pre = 0;
+	std::string targetString = regex.original;
+	std::string result;
+	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
+
+		for (; pre < pos; pre++) {
+			result += this->original[pre];
+		}
+		strings.push(result);
+		pre += targetString.size();
+		pos += targetString.length();
+		result = "";
+	}
+	for (; pre < this->length(); pre++) {
+		result += this->original[pre];
+	}
+	strings.push(result);
+	return strings;
+}
+
+boolean String::startsWith(const String &prefix) const {
+	if (this->original.c_str() == nullptr || prefix.original.c_str() == nullptr) {
+		return false;
+	}
+	int lengthOriginal = (int) this->original.size();
+	int lengthPrefix = (int) prefix.original.size();
+	if (lengthOriginal < lengthPrefix) {
+		return false;
+	}
+	for (int index = 0; index < lengthPrefix; index++) {
+		if (this->original[index] != prefix.original[index]) {
+			return false;
+		}
+	}
+	return true;
+}
+
+boolean String::startsWith(String prefix, int thisOffset) const {
+	if (thisOffset < 0) {
+		return false;
+	}
+	int originalLength = (int) this->original.size();
+	int prefixLength = (int) prefix.original.size();
+	if (originalLength < prefixLength || thisOffset > (originalLength - prefixLength)) {
+		return false;
+	}
+
+	int firstIndex = 0, secondIndex = thisOffset;
+	for (; firstIndex < prefixLength; firstIndex++) {
+		if (prefix.original[firstIndex] != this->original[secondIndex]) {
+			return false;
+		}
+		secondIndex++;
+	}
+	return true;
+}
+
+Array<char> String::toCharArray() const {
+	Array<char> chars;
+	for (char c : this->original) {
+		chars.push(c);
+	}
+	return chars;
+}
+
+string String::toCharPointer() const {
+	return (string) this->original.c_str();
+}
+
+std::string String::toSTLString() const {
+    return this->original;
+}
+
+String String::toString() const {
+	return *this;
+}
+
+String String::toLowerCase() const {
+	return toLower(this->original);
+}
+
+String String::toUpperCase() const {
+	return toUpper(this->original);
+}
+
+String String::trim() const {
+	size_t first = this->original.find_first_not_of(' ');
+	if (std::string::npos == first) {
+		return "";
+	}
+	size_t last = this->original.find_last_not_of(' ');
+	return this->original.substr(first, (last - first + 1));
+}
+
+String String::valueOf(boolean target) {
+	if (target) {
+		return (string) "true";
+	}
+	return (string) "false";
+}
+
+String String::valueOf(char charValue) {
+	string pointerHolder;
+	if (charValue == '\0') {
+		pointerHolder = stringCopy("");
+	} else {
+		auto *result = (string) calloc(2, sizeof(char));
+		result[0] = charValue;
+		result[1] = '\0';
+		pointerHolder = result;
+	}
+	String output = pointerHolder;
+	free(pointerHolder);
+	return output;
+}
+
+String String::valueOf(string stringValue) {
+	if (stringValue == nullptr) {
+		return (string) "";
+	}
+	return stringValue;
+}
+
+String String::valueOf(short shortValue) {
+	String result = std::to_string(shortValue);
+	return result;
+}
+
+String String::valueOf(int intValue) {
+	String result = std::to_string(intValue);
+	return result;
+}
+
+String String::valueOf(long longValue) {
+	String result = std::to_string(longValue);
+	return result;
+}
+
+String String::valueOf(long long longValue) {
+    String result = std::to_string(longValue);
+    return result;
+}
+
+String String::valueOf(float floatValue) {
+	string pointerHolder;
+	asprintf(&pointerHolder, "%g", floatValue);
+	String result = pointerHolder;
+	free(pointerHolder);
+	return result;
+}
+
+String String::valueOf(double doubleValue) {
+	int precision = 15;
+	string pointerHolder = (string) calloc(1079, sizeof(char));
+	if (doubleValue == 0.0f && doubleValue < 0) {
+		sprintf(pointerHolder, "-%.*f", precision, doubleValue);
+	} else {
+		sprintf(pointerHolder, "%.*f", precision, doubleValue);
+	}
+	String result = pointerHolder;
+	free(pointerHolder);
+	return result;
+}
+
+String String::subString(int beginIndex) const {
+	return this->subString(beginIndex, (int) this->original.length());
+}
+
+String String::subString(int beginIndex, int endIndex) const {
+	if (this->original.c_str() == nullptr) {
+		return "";
+	}
+	int lengthTarget = this->length();
+	if (beginIndex > endIndex || beginIndex < 0 || beginIndex > lengthTarget || endIndex < 0 ||
+	    endIndex > lengthTarget) {
+		return "";
+	}
+	std::string result = this->original.substr(beginIndex, endIndex - beginIndex);
+	return result;
+}
+
+boolean String::contentEquals(const CharSequence &charSequence) const {
+	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+}
+
+String String::copyValueOf(const Array<char> &charArray) {
+	return String(charArray);
+}
+
+String String::copyValueOf(const Array<char> &charArray, int offset, int count) {
+	return String(charArray, offset, count);
+}
+
+boolean String::equals(const String &anotherString) const {
+    return this->original == anotherString.original;
+}
+
+boolean String::equalsIgnoreCase(const String &anotherString) const {
+	return this->compareToIgnoreCase(anotherString) == 0;
+}
+
+long String::hashCode() const {
+	int hashCode = this->hash;
+	if (hashCode == 0 && this->original.size() > 0) {
+		for (int i = 0; i < this->original.size(); i++) {
+			hashCode = 31 * hashCode + this->original[i];
+		}
+		this->hash = hashCode;
+	}
+	return hashCode;
+}
+
+boolean String::regionMatches(int thisOffset,
+                              const String &otherString, int otherOffset, int len) const {
+	return this->regionMatches(false, thisOffset, otherString, otherOffset, len);
+}
+
+boolean String::regionMatches(boolean ignoreCase, int thisOffset,
+                              const String &otherString, int otherOffset, int len) const {
+	String thisString = this->subString(thisOffset, thisOffset + len);
+	var subString = otherString.subString(otherOffset, otherOffset + len);
+	if (ignoreCase) {
+		return thisString.compareToIgnoreCase(subString) == 0;
+	}
+	return thisString.compareTo(subString) == 0;
+}
+
+void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination, int destinationBegin) const {
+	if (sourceBegin < 0) {
+		throw StringIndexOutOfBoundsException(sourceBegin);
+	}
+	if (sourceBegin > sourceEnd) {
+		throw StringIndexOutOfBoundsException(sourceEnd - sourceBegin);
+	}
+	if (sourceEnd > this->length()) {
+		throw StringIndexOutOfBoundsException(sourceEnd);
+	}
+	if (destinationBegin < 0) {
+		throw StringIndexOutOfBoundsException(destinationBegin);
+	}
+	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length) {
+		throw StringIndexOutOfBoundsException(destinationBegin
+		                                      + (sourceEnd - sourceBegin));
+	}
+	int len = sourceEnd - sourceBegin;
+	int newDestinationSize = destinationBegin + len;
+	for (int index = 0; index < newDestinationSize; index++) {
+		if (index >= destinationBegin && index < destinationBegin + len) {
+			destination[index] = this->charAt(sourceBegin);
+			sourceBegin++;
+			continue;
+		}
+		destination[index] = destination[index];
+	}
+}
+
+String String::replace(const CharSequence &target, const CharSequence &replacement) const {
+	if ((string) target.toString().toCharPointer() == nullptr ||
+	    (string) replacement.toString().toCharPointer() == nullptr ||
+	    (string) this->toString().toCharPointer() == nullptr) {
+		return "";
+	}
+	size_t pos = 0;
+	size_t pre = 0;
+	std::string targetString = target.toString().original;
+	std::string replaceString = replacement.toString().original;
+	std::string result;
+	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
+		for (; pre < pos; pre++) {
+			result += this->original[pre];
+		}
+		result += replaceString;
+		pre += targetString.size();
+		pos += targetString.length();
+	}
+	for (; pre < this->length(); pre++) {
+		result += this->original[pre];
+	}
+	return result;
+}
+
+String String::replaceFirst(const String &regex, const String &replacement) const {
+	// TODO (anhnt) fix this later, temporary, need Pattern
+	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
+	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
+	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
+	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
+	return stringWithFirstRegex + remainString;
+}
+
+Array<String> String::split(const String &regex, int limit) const {
+	// TODO (anhnt) fix this later, temporary, need Pattern
+	Array<String> stringArrayNoLimit = this->split(regex);
+	if (limit == 1) {
+		return Array<String>{*this};
+	}
+	if (limit > stringArrayNoLimit.length || limit <= 0) {
+		return stringArrayNoLimit;
+	}
+	int i = 0;
+	Array<String> strings;
+	for (; i < limit - 1; i++) {
+		strings.push(stringArrayNoLimit[i]);
+	}
+	String stringSupport;
+	for (i = limit - 1; i < stringArrayNoLimit.length - 1; i++) {
+		stringSupport += stringArrayNoLimit[i] + regex;
+	}
+	stringSupport += stringArrayNoLimit[stringArrayNoLimit.length - 1];
+	strings.push(stringSupport);
+	return strings;
+}
+
+String String::print(const String &format, bool value) {
+	if (format.original == "%b") {
+		return (value ? "true" : "false");
+	}
+	if (format.original == "%B") {
+		return (value ? "TRUE" : "FALSE");
+	}
+	return "";
+}
+
+String String::print(const String &format, short value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, int value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, long value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, long long value) {
+    String result;
+    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+    if (length > 0) {
+        result = String(buffer, length);
+    }
+    return result;
+}
+
+String String::print(const String &format, unsigned short value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, unsigned int value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, unsigned long value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, double value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, float value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, string value) {
+	String result;
+	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
+	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
+	if (length > DEFAULT_BUFFER_LENGTH) {
+		free(buffer);
+		buffer = (string) calloc(++length, sizeof(char));
+		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
+	}
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	free(buffer);
+	return result;
+}
+
+String String::print(const String &format, const_string value) {
+	String result;
+	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
+	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
+	if (length > DEFAULT_BUFFER_LENGTH) {
+		free(buffer);
+		buffer = (string) calloc(++length, sizeof(char));
+		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
+	}
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	free(buffer);
+	return result;
+}
+
+String String::print(const String &format, Boolean value) {
+	return print(format, value.booleanValue());
+}
+
+String String::print(const String &format, Short value) {
+	return String::print(format, value.shortValue());
+}
+
+String String::print(const String &format, Integer value) {
+	return String::print(format, value.intValue());
+}
+
+String String::print(const String &format, Long value) {
+	return String::print(format, value.longValue());
+}
+
+String String::print(const String &format, Float value) {
+	return String::print(format, value.floatValue());
+}
+
+String String::print(const String &format, Double value) {
+	return String::print(format, value.doubleValue());
+}
+
+String String::print(const String &format, String value) {
+	return String::print(format, value.toCharPointer());
+}
+
+String String::format(const String &format) {
+	const String pattern = "%([[:digit:]]+)?([-#+0 ]*)?([[:digit:]]+)?(\\" \
+            ".[[:digit:]]+)?(l){0,2}([diuoxXfFeEgGaAcspnbB%])";
+	String result;
+	string inputStringPtr = format.toCharPointer();
+	int inputStringLength = format.getSize();
+	int inputStringOffset = 0;
+	int errorCode = 0;
+	regex_t regex;
+	errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
+	while (errorCode == 0 && inputStringOffset < format.getSize()) {
+		regmatch_t matchedResult[16] = {0}; // max 16 groups
+		errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
+		if (errorCode != 0) {
+			result += String(inputStringPtr, inputStringLength);
+			break;
+		}
+		int unmatchedStringLength = matchedResult[0].rm_so;
+		int matchedStringLength = matchedResult[0].rm_eo - matchedResult[0].rm_so;
+		if (unmatchedStringLength > 0) {
+			result += String(inputStringPtr, unmatchedStringLength);
+		}
+		if (matchedStringLength > 0) {
+			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
+			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
+				regfree(&regex);
+				throw InterruptedException("Missing arguments.");
+			} else {
+				result += "%";
+			}
+		}
+		inputStringPtr += matchedResult[0].rm_eo;
+		inputStringOffset += matchedResult[0].rm_eo;
+		inputStringLength -= matchedResult[0].rm_eo;
+	}
+	regfree(&regex);
+	return result;
+}
+
+String String::valueOf(const_string constStringValue) {
+	if (std::string(constStringValue).empty()) {
+		return (string) "";
+	}
+	return constStringValue;
+}
+
+String String::valueOf(const String &stringValue) {
+	return stringValue;
+}
-- 
2.43.0


From b1979062c47388c53eee610dc01133d97857f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 18/40] fix: String::lastIndexOf(int, int) must look at the
 character at fromIndex too

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index c10a167..e0aa22d 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -309,12 +309,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= (int) this->original.size()) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From 3cdd2c6e8b2c31b26e8630bb4d0835d85fe98410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 19/40] fix: String::indexOf(int) must not find the NUL
 character in every string

---
 library/Java/Lang/String/String.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index e0aa22d..cd46b36 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -227,18 +227,7 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	std::size_t found = this->original.find((char) character);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
-- 
2.43.0


From 70027f0b72cd2edfcae8c12a4422e9d2609910ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 20/40] fix: String::hashCode must not return the hash of an
 earlier content

---
 library/Java/Lang/String/String.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index cd46b36..508d737 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -574,13 +574,11 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	int hashCode = 0; // not cached: operator=, operator+= change the characters
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
 	}
+	this->hash = hashCode;
 	return hashCode;
 }
 
-- 
2.43.0


From 48259d11448e7ffeee93f5179e6201494a236771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 21/40] fix: String::split must not loop forever on an empty
 separator

---
 library/Java/Lang/String/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 508d737..0db3bf2 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -375,6 +375,12 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+	if (targetString.empty()) { // every character on its own
+		for (char c : this->original) {
+			strings.push(String(&c, 1));
+		}
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
-- 
2.43.0


From 85859f0b2614929e0d5b4595880d690f8742db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 22/40] fix: String::replace must not loop forever on an empty
 target

---
 library/Java/Lang/String/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 0db3bf2..8f0ff3c 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -643,6 +643,13 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+	if (targetString.empty()) { // the replacement goes before every character and at the end
+		for (char c : this->original) {
+			result += replaceString;
+			result += c;
+		}
+		return result + replaceString;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From ed5966d53a8613c83bb37115fc7ccd706e6bb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 23/40] fix: String::replaceFirst must not throw when the
 target is absent or ends the string

---
 library/Java/Lang/String/String.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 8f0ff3c..08d8a19 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -666,9 +666,13 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
+	int firstRegexIndex = this->indexOf(regex);
+	if (firstRegexIndex < 0) {
+		return *this;
+	}
+	int stringWithFirstRegexLength = firstRegexIndex + regex.length();
 	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
+	String remainString = this->subString(stringWithFirstRegexLength);
 	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
 	return stringWithFirstRegex + remainString;
 }
-- 
2.43.0


From b2457b7267931436853feb25388a73e322963482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 24/40] fix: String::getChars range check overflowed for a
 large destinationBegin

---
 library/Java/Lang/String/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 08d8a19..271f19b 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -616,7 +616,7 @@ void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination,
 	if (destinationBegin < 0) {
 		throw StringIndexOutOfBoundsException(destinationBegin);
 	}
-	if (destinationBegin + (sourceEnd - sourceBegin) > destination.length) {
+	if (destinationBegin > destination.length - (sourceEnd - sourceBegin)) {
 		throw StringIndexOutOfBoundsException(destinationBegin
 		                                      + (sourceEnd - sourceBegin));
 	}
-- 
2.43.0


From c4859b7b58152c01d22ab78133df9b71218d6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 25/40] fix: keep the original CRLF line endings of the
 repaired files

---
 library/Java/Lang/Integer/Integer.cpp | 1228 ++++++++---------
 library/Java/Lang/Math/Math.cpp       | 1082 +++++++--------
 library/Java/Lang/Short/Short.cpp     |  538 ++++----
 library/Java/Lang/String/String.cpp   | 1822 ++++++++++++-------------
 4 files changed, 2335 insertions(+), 2335 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 77ebc96..eef3d94 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -1,614 +1,614 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, 
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, 
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include <sstream>
-#include <string>
-#include "Integer.hpp"
-#include "../Math/Math.hpp"
-#include "../NumberFormatException/NumberFormatException.hpp"
-#include "../UnsupportedOperationException/UnsupportedOperationException.hpp"
-#include "../ArithmeticException/ArithmeticException.hpp"
-
-using namespace Java::Lang;
-
-Integer::Integer() {
-	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(int original) {
-	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(String inputString) {
-	this->original = Integer::parseInt(inputString);
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::Integer(const Integer &integer) {
-	this->original = integer.original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-Integer::~Integer() {
-	if (this->originalString != nullptr) {
-		free(this->originalString);
-	}
-}
-
-char Integer::charValue() const {
-	string convertResult;
-    asprintf(&convertResult, "%d", this->original);
-	char result;
-    if (convertResult == "") {
-        result = '\0';
-    } else {
-        result = convertResult[0];
-    }
-	free(convertResult);
-	return result;
-}
-
-string Integer::stringValue() const {
-	return this->originalString;
-}
-
-short Integer::shortValue() const {
-	return (short) this->original;
-}
-
-int Integer::intValue() const {
-	return this->original;
-}
-
-long Integer::longValue() const {
-	return (long) this->original;
-}
-
-float Integer::floatValue() const {
-	return (float) this->original;
-}
-
-double Integer::doubleValue() const {
-	return (double) this->original;
-}
-
-Integer &Integer::operator=(const Integer &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer Integer::operator+(const Integer &target) {
-	return this->original + target.original;
-}
-
-Integer Integer::operator-(const Integer &target) {
-	return this->original - target.original;
-}
-
-boolean Integer::operator==(const Integer &target) const {
-	return this->original == target.original;
-}
-
-boolean Integer::operator!=(const Integer &target) const {
-	return this->original != target.original;
-}
-
-boolean Integer::operator<(const Integer &target) const {
-	return this->original < target.original;
-}
-
-boolean Integer::operator>(const Integer &target) const {
-	return this->original > target.original;
-}
-
-boolean Integer::operator<=(const Integer &target) const {
-	return this->original <= target.original;
-}
-
-boolean Integer::operator>=(const Integer &target) const {
-	return this->original >= target.original;
-}
-
-Integer Integer::operator/(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	if (target.original == -1) { // MIN_VALUE / -1 would trap
-		return (int) (0U - (unsigned int) this->original);
-	}
-	return this->original / target.original;
-}
-
-Integer Integer::operator*(const Integer &target) {
-	return this->original * target.original;
-}
-
-Integer Integer::operator%(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	if (target.original == -1) { // MIN_VALUE % -1 would trap
-		return 0;
-	}
-	return this->original % target.original;
-}
-
-Integer &Integer::operator+=(const Integer &target) {
-	this->original += target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator-=(const Integer &target) {
-	this->original -= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator/=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original = (*this / target).original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator*=(const Integer &target) {
-	this->original *= target.original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-Integer &Integer::operator%=(const Integer &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	this->original = (*this % target).original;
-	free(this->originalString);
-	asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-int Integer::bitCount(int inputInt) {
-	String inputInBinary = Integer::toBinaryString(inputInt);
-	int resultBitCount = 0;
-	int index;
-	for (index = 0; index < inputInBinary.length(); index++) {
-		if (inputInBinary.charAt(index) == '1') {
-			resultBitCount++;
-		}
-	}
-	
-	return resultBitCount;
-}
-
-byte Integer::byteValue() {
-	return static_cast<byte> (this->original);
-}
-
-int Integer::compare(int inputInt1, int inputInt2) {
-	if (inputInt1 < inputInt2) {
-		return -1;
-	}
-	
-	if (inputInt1 > inputInt2) {
-		return 1;
-	}
-	
-	return 0;
-}
-
-int Integer::compareTo(const Integer &anotherInteger) const {
-	return this->compare(this->original, anotherInteger.intValue());
-}
-
-int Integer::compareUnsigned(int intA, int intB) {
-	return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);
-}
-
-Integer Integer::decode(String inputString) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	boolean isNegative = false;
-	int base = 10;
-	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	if (inputString.charAt(0) == '0') {
-		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
-			base = 16;
-		} else {
-			base = 8;
-		}
-	}
-	
-	int result = parseInt(inputString, base);
-	if (isNegative) {
-		return static_cast<Integer>(-result);
-	}
-	return static_cast<Integer>(result);
-}
-
-int Integer::divideUnsigned(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (int) ( Integer::toUnsignedLong(dividend) / Integer::toUnsignedLong(divisor));
-}
-
-// Integer Integer::getInteger(String inputString) {
-
-
-// }
-
-// Integer Integer::getInteger(String inputString, int inputInt) {
-
-
-// }
-
-// Integer Integer::getInteger(String inputString, Integer inputInteger) {
-
-
-// }
-
-
-int Integer::highestOneBit(int inputInt) {
-	inputInt |= ( inputInt >> 1 );
-	inputInt |= ( inputInt >> 2 );
-	inputInt |= ( inputInt >> 4 );
-	inputInt |= ( inputInt >> 8 );
-	inputInt |= ( inputInt >> 16 );
-	
-	return inputInt - ((unsigned int) inputInt >> 1 );
-}
-
-int Integer::lowestOneBit(int inputInt) {
-	return inputInt & -inputInt;
-}
-
-int Integer::max(int intA, int intB) {
-	return Math::max(intA, intB);
-}
-
-int Integer::min(int intA, int intB) {
-	return Math::min(intA, intB);
-}
-
-int Integer::numberOfLeadingZeros(int inputInt) {
-	if (inputInt == 0) {
-		return 32;
-	}
-	
-	int numberOfZero = 1;
-	
-	if ((unsigned int) inputInt >> 16 == 0) {
-		numberOfZero += 16;
-		inputInt <<= 16;
-	}
-	
-	if ((unsigned int) inputInt >> 24 == 0) {
-		numberOfZero += 8;
-		inputInt <<= 8;
-	}
-	
-	if ((unsigned int) inputInt >> 28 == 0) {
-		numberOfZero += 4;
-		inputInt <<= 4;
-	}
-	
-	if ((unsigned int) inputInt >> 30 == 0) {
-		numberOfZero += 2;
-		inputInt <<= 2;
-	}
-	
-	numberOfZero -= (unsigned int) inputInt >> 31;
-	
-	return numberOfZero;
-}
-
-int Integer::numberOfTrailingZeros(int inputInt) {
-	if (inputInt == 0) {
-		return 32;
-	}
-	
-	String inputInBinary = Integer::toBinaryString(inputInt);
-	int lastIndexOfOneBit = inputInBinary.lastIndexOf('1');
-	int numberOfTrailingZeros = inputInBinary.length() - lastIndexOfOneBit - 1;
-	return numberOfTrailingZeros;
-}
-
-int Integer::parseInt(String inputString, int radix) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		throw NumberFormatException("radix out of range");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	boolean isNegative = false;
-	char sign = inputString.charAt(0);
-	if (sign == '-' && (( isdigit(sign)) == 0 )) {
-		isNegative = true;
-		inputString = inputString.getStringFromIndex(1);
-	}
-	
-	unsigned long unsignedResult = 0;
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	}
-	catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	}
-	catch (const std::out_of_range &e) {
-		throw NumberFormatException("Integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
-	if (isNegative) {
-		result = -unsignedResult;
-	}
-	
-	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {
-		throw NumberFormatException("Integer out of range");
-	}
-	
-	return (int) result;
-}
-
-int Integer::parseInt(String inputString) {
-	return Integer::parseInt(inputString, 10);
-}
-
-int Integer::parseUnsignedInt(String inputString, int radix) {
-	if (inputString.length() == 0) {
-		throw NumberFormatException("input string is null");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		throw NumberFormatException("radix out of range");
-	}
-	
-	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
-		return 0;
-	}
-	
-	char sign = inputString.charAt(0);
-	
-	
-	if (( isdigit(sign)) == 0) {
-		if (sign == '-') {
-			throw NumberFormatException("Illegal leading minus sign");
-		}
-		
-		if (sign == '+') {
-			inputString = inputString.getStringFromIndex(1);
-		}
-	}
-	
-	unsigned long unsignedResult = 0;
-	
-	try {
-		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
-	} catch (const std::invalid_argument &e) {
-		throw NumberFormatException("Not a number");
-	} catch (const std::out_of_range &e) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
-	
-	long result = unsignedResult;
-	
-	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
-		throw NumberFormatException("Unsigned integer out of range");
-	}
-	
-	return (int) result;
-}
-
-int Integer::parseUnsignedInt(String inputString) {
-	return Integer::parseUnsignedInt(inputString, 10);
-}
-
-int Integer::remainderUnsigned(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (int) ( toUnsignedLong(dividend) % toUnsignedLong(divisor));
-}
-
-int Integer::reverse(int inputInt) {
-	inputInt = ( inputInt & 0x55555555 ) << 1
-	           | (((unsigned int) inputInt >> 1 ) & 0x55555555);
-	
-	inputInt = ( inputInt & 0x33333333 ) << 2
-	           | (((unsigned int) inputInt >> 2 ) & 0x33333333);
-	
-	inputInt = ( inputInt & 0x0f0f0f0f ) << 4
-	           | (((unsigned int) inputInt >> 4 ) & 0x0f0f0f0f);
-	
-	inputInt = ( inputInt << 24 ) | (( inputInt & 0xff00 ) << 8 )
-	           | (((unsigned int) inputInt >> 8 ) & 0xff00 )
-	           | ((unsigned int) inputInt >> 24 );
-	
-	return inputInt;
-}
-
-int Integer::reverseBytes(int inputInt) {
-	inputInt = (((unsigned int) inputInt >> 24 ))
-	           | (( inputInt >> 8 ) & 0xFF00 )
-	           | (( inputInt << 8 ) & 0xFF0000 )
-	           | (( inputInt << 24 ));
-	
-	return inputInt;
-}
-
-int Integer::rotateLeft(int inputInt, int distance) {
-	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
-	return inputInt;
-}
-
-int Integer::rotateRight(int inputInt, int distance) {
-	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
-}
-
-String Integer::toString() const {
-	return this->originalString;
-}
-
-long Integer::toUnsignedLong(int inputInt) {
-	// Make the overload bits is 0 to make sure inputInt in 32 bit type.
-	return ((long) inputInt ) & 0xffffffff;
-}
-
-boolean Integer::equals(Integer object) {
-	return this->original == object.intValue();
-}
-
-int Integer::hashCode(int inputInt) {
-	return inputInt;
-}
-
-int Integer::hashCode() const {
-	return Integer::hashCode(this->original);
-}
-
-int Integer::signum(int inputInt) {
-	if (inputInt == 0) {
-		return 0;
-	}
-	
-	if (inputInt > 0) {
-		return 1;
-	}
-	
-	return -1;
-}
-
-int Integer::sum(int intA, int intB) {
-	return intA + intB;
-}
-
-String Integer::toBinaryString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 2);
-}
-
-String Integer::toUnsignedString(int inputInt, int radix) {
-	if (inputInt == 0) {
-		return String("0");
-	}
-	
-	if (radix > 32 || radix < 2) {
-		radix = 10;
-	}
-	
-	std::stringstream stream;
-	String result;
-	
-	switch (radix) {
-		case 2:
-			// TODO change to java.util.BitSet
-			result = std::bitset<32>((unsigned long long int) Integer::toUnsignedLong(inputInt)).to_string();
-			result = result.getStringFromIndex(result.indexOf('1'));
-			return result;
-		case 8:
-			stream << std::oct << Integer::toUnsignedLong(inputInt);
-			result = stream.str();			
-			result.replace(',', '\0');
-			return result;
-		case 16:
-			stream << std::hex << Integer::toUnsignedLong(inputInt);
-			result = stream.str();
-			result.replace(',', '\0');
-			return result;;
-		case 10:
-			stream << std::dec << Integer::toUnsignedLong(inputInt);
-			result = stream.str();
-			result.replace(',', '\0');
-			return result;
-		default:
-			throw UnsupportedOperationException("Haven't support this radix yet");
-	}
-}
-
-String Integer::toUnsignedString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 10);
-}
-
-String Integer::toHexString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 16);
-}
-
-String Integer::toOctalString(int inputInt) {
-	return Integer::toUnsignedString(inputInt, 8);
-}
-
-Integer Integer::valueOf(int inputInt) {
-	return Integer(inputInt);
-}
-
-Integer Integer::valueOf(String inputString) {
-	return Integer::valueOf(Integer::parseInt(inputString));
-}
-
-Integer Integer::valueOf(String inputString, int radix) {
-	return Integer::valueOf(Integer::parseInt(inputString, radix));
-}
-
-String Integer::toString(int inputInt) {
-	return Integer::toString(inputInt, 10);
-}
-
-String Integer::toString(int inputInt, int radix) {
-	if (inputInt < 0) {
-		inputInt = -inputInt;
-		return String("-") + Integer::toUnsignedString(inputInt, radix);
-	}
-	
-	return Integer::toUnsignedString(inputInt, radix);
-}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, 
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, 
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include <sstream>
+#include <string>
+#include "Integer.hpp"
+#include "../Math/Math.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
+#include "../UnsupportedOperationException/UnsupportedOperationException.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+
+using namespace Java::Lang;
+
+Integer::Integer() {
+	this->original = 0;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(int original) {
+	this->original = original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(String inputString) {
+	this->original = Integer::parseInt(inputString);
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::Integer(const Integer &integer) {
+	this->original = integer.original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+Integer::~Integer() {
+	if (this->originalString != nullptr) {
+		free(this->originalString);
+	}
+}
+
+char Integer::charValue() const {
+	string convertResult;
+    asprintf(&convertResult, "%d", this->original);
+	char result;
+    if (convertResult == "") {
+        result = '\0';
+    } else {
+        result = convertResult[0];
+    }
+	free(convertResult);
+	return result;
+}
+
+string Integer::stringValue() const {
+	return this->originalString;
+}
+
+short Integer::shortValue() const {
+	return (short) this->original;
+}
+
+int Integer::intValue() const {
+	return this->original;
+}
+
+long Integer::longValue() const {
+	return (long) this->original;
+}
+
+float Integer::floatValue() const {
+	return (float) this->original;
+}
+
+double Integer::doubleValue() const {
+	return (double) this->original;
+}
+
+Integer &Integer::operator=(const Integer &target) {
+	this->original = target.original;
+	free(this->originalString);
+    asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer Integer::operator+(const Integer &target) {
+	return this->original + target.original;
+}
+
+Integer Integer::operator-(const Integer &target) {
+	return this->original - target.original;
+}
+
+boolean Integer::operator==(const Integer &target) const {
+	return this->original == target.original;
+}
+
+boolean Integer::operator!=(const Integer &target) const {
+	return this->original != target.original;
+}
+
+boolean Integer::operator<(const Integer &target) const {
+	return this->original < target.original;
+}
+
+boolean Integer::operator>(const Integer &target) const {
+	return this->original > target.original;
+}
+
+boolean Integer::operator<=(const Integer &target) const {
+	return this->original <= target.original;
+}
+
+boolean Integer::operator>=(const Integer &target) const {
+	return this->original >= target.original;
+}
+
+Integer Integer::operator/(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE / -1 would trap
+		return (int) (0U - (unsigned int) this->original);
+	}
+	return this->original / target.original;
+}
+
+Integer Integer::operator*(const Integer &target) {
+	return this->original * target.original;
+}
+
+Integer Integer::operator%(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	if (target.original == -1) { // MIN_VALUE % -1 would trap
+		return 0;
+	}
+	return this->original % target.original;
+}
+
+Integer &Integer::operator+=(const Integer &target) {
+	this->original += target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator-=(const Integer &target) {
+	this->original -= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator/=(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	this->original = (*this / target).original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator*=(const Integer &target) {
+	this->original *= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+Integer &Integer::operator%=(const Integer &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	this->original = (*this % target).original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+int Integer::bitCount(int inputInt) {
+	String inputInBinary = Integer::toBinaryString(inputInt);
+	int resultBitCount = 0;
+	int index;
+	for (index = 0; index < inputInBinary.length(); index++) {
+		if (inputInBinary.charAt(index) == '1') {
+			resultBitCount++;
+		}
+	}
+	
+	return resultBitCount;
+}
+
+byte Integer::byteValue() {
+	return static_cast<byte> (this->original);
+}
+
+int Integer::compare(int inputInt1, int inputInt2) {
+	if (inputInt1 < inputInt2) {
+		return -1;
+	}
+	
+	if (inputInt1 > inputInt2) {
+		return 1;
+	}
+	
+	return 0;
+}
+
+int Integer::compareTo(const Integer &anotherInteger) const {
+	return this->compare(this->original, anotherInteger.intValue());
+}
+
+int Integer::compareUnsigned(int intA, int intB) {
+	return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);
+}
+
+Integer Integer::decode(String inputString) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	boolean isNegative = false;
+	int base = 10;
+	char sign = inputString.charAt(0);
+	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+		isNegative = true;
+		inputString = inputString.getStringFromIndex(1);
+	}
+	
+	if (inputString.charAt(0) == '0') {
+		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
+			base = 16;
+		} else {
+			base = 8;
+		}
+	}
+	
+	int result = parseInt(inputString, base);
+	if (isNegative) {
+		return static_cast<Integer>(-result);
+	}
+	return static_cast<Integer>(result);
+}
+
+int Integer::divideUnsigned(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (int) ( Integer::toUnsignedLong(dividend) / Integer::toUnsignedLong(divisor));
+}
+
+// Integer Integer::getInteger(String inputString) {
+
+
+// }
+
+// Integer Integer::getInteger(String inputString, int inputInt) {
+
+
+// }
+
+// Integer Integer::getInteger(String inputString, Integer inputInteger) {
+
+
+// }
+
+
+int Integer::highestOneBit(int inputInt) {
+	inputInt |= ( inputInt >> 1 );
+	inputInt |= ( inputInt >> 2 );
+	inputInt |= ( inputInt >> 4 );
+	inputInt |= ( inputInt >> 8 );
+	inputInt |= ( inputInt >> 16 );
+	
+	return inputInt - ((unsigned int) inputInt >> 1 );
+}
+
+int Integer::lowestOneBit(int inputInt) {
+	return inputInt & -inputInt;
+}
+
+int Integer::max(int intA, int intB) {
+	return Math::max(intA, intB);
+}
+
+int Integer::min(int intA, int intB) {
+	return Math::min(intA, intB);
+}
+
+int Integer::numberOfLeadingZeros(int inputInt) {
+	if (inputInt == 0) {
+		return 32;
+	}
+	
+	int numberOfZero = 1;
+	
+	if ((unsigned int) inputInt >> 16 == 0) {
+		numberOfZero += 16;
+		inputInt <<= 16;
+	}
+	
+	if ((unsigned int) inputInt >> 24 == 0) {
+		numberOfZero += 8;
+		inputInt <<= 8;
+	}
+	
+	if ((unsigned int) inputInt >> 28 == 0) {
+		numberOfZero += 4;
+		inputInt <<= 4;
+	}
+	
+	if ((unsigned int) inputInt >> 30 == 0) {
+		numberOfZero += 2;
+		inputInt <<= 2;
+	}
+	
+	numberOfZero -= (unsigned int) inputInt >> 31;
+	
+	return numberOfZero;
+}
+
+int Integer::numberOfTrailingZeros(int inputInt) {
+	if (inputInt == 0) {
+		return 32;
+	}
+	
+	String inputInBinary = Integer::toBinaryString(inputInt);
+	int lastIndexOfOneBit = inputInBinary.lastIndexOf('1');
+	int numberOfTrailingZeros = inputInBinary.length() - lastIndexOfOneBit - 1;
+	return numberOfTrailingZeros;
+}
+
+int Integer::parseInt(String inputString, int radix) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		throw NumberFormatException("radix out of range");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	boolean isNegative = false;
+	char sign = inputString.charAt(0);
+	if (sign == '-' && (( isdigit(sign)) == 0 )) {
+		isNegative = true;
+		inputString = inputString.getStringFromIndex(1);
+	}
+	
+	unsigned long unsignedResult = 0;
+	try {
+		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+	}
+	catch (const std::invalid_argument &e) {
+		throw NumberFormatException("Not a number");
+	}
+	catch (const std::out_of_range &e) {
+		throw NumberFormatException("Integer out of range");
+	}
+	
+	long result = unsignedResult;
+	
+	if (isNegative) {
+		result = -unsignedResult;
+	}
+	
+	if (result > Integer::MAX_VALUE || result < Integer::MIN_VALUE) {
+		throw NumberFormatException("Integer out of range");
+	}
+	
+	return (int) result;
+}
+
+int Integer::parseInt(String inputString) {
+	return Integer::parseInt(inputString, 10);
+}
+
+int Integer::parseUnsignedInt(String inputString, int radix) {
+	if (inputString.length() == 0) {
+		throw NumberFormatException("input string is null");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		throw NumberFormatException("radix out of range");
+	}
+	
+	if (inputString.charAt(0) == '0' && inputString.length() == 1) {
+		return 0;
+	}
+	
+	char sign = inputString.charAt(0);
+	
+	
+	if (( isdigit(sign)) == 0) {
+		if (sign == '-') {
+			throw NumberFormatException("Illegal leading minus sign");
+		}
+		
+		if (sign == '+') {
+			inputString = inputString.getStringFromIndex(1);
+		}
+	}
+	
+	unsigned long unsignedResult = 0;
+	
+	try {
+		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
+	} catch (const std::invalid_argument &e) {
+		throw NumberFormatException("Not a number");
+	} catch (const std::out_of_range &e) {
+		throw NumberFormatException("Unsigned integer out of range");
+	}
+	
+	long result = unsignedResult;
+	
+	if (result > UNSIGNED_INT_MAX || result < UNSIGNED_INT_MIN) {
+		throw NumberFormatException("Unsigned integer out of range");
+	}
+	
+	return (int) result;
+}
+
+int Integer::parseUnsignedInt(String inputString) {
+	return Integer::parseUnsignedInt(inputString, 10);
+}
+
+int Integer::remainderUnsigned(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (int) ( toUnsignedLong(dividend) % toUnsignedLong(divisor));
+}
+
+int Integer::reverse(int inputInt) {
+	inputInt = ( inputInt & 0x55555555 ) << 1
+	           | (((unsigned int) inputInt >> 1 ) & 0x55555555);
+	
+	inputInt = ( inputInt & 0x33333333 ) << 2
+	           | (((unsigned int) inputInt >> 2 ) & 0x33333333);
+	
+	inputInt = ( inputInt & 0x0f0f0f0f ) << 4
+	           | (((unsigned int) inputInt >> 4 ) & 0x0f0f0f0f);
+	
+	inputInt = ( inputInt << 24 ) | (( inputInt & 0xff00 ) << 8 )
+	           | (((unsigned int) inputInt >> 8 ) & 0xff00 )
+	           | ((unsigned int) inputInt >> 24 );
+	
+	return inputInt;
+}
+
+int Integer::reverseBytes(int inputInt) {
+	inputInt = (((unsigned int) inputInt >> 24 ))
+	           | (( inputInt >> 8 ) & 0xFF00 )
+	           | (( inputInt << 8 ) & 0xFF0000 )
+	           | (( inputInt << 24 ));
+	
+	return inputInt;
+}
+
+int Integer::rotateLeft(int inputInt, int distance) {
+	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
+	return inputInt;
+}
+
+int Integer::rotateRight(int inputInt, int distance) {
+	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
+}
+
+String Integer::toString() const {
+	return this->originalString;
+}
+
+long Integer::toUnsignedLong(int inputInt) {
+	// Make the overload bits is 0 to make sure inputInt in 32 bit type.
+	return ((long) inputInt ) & 0xffffffff;
+}
+
+boolean Integer::equals(Integer object) {
+	return this->original == object.intValue();
+}
+
+int Integer::hashCode(int inputInt) {
+	return inputInt;
+}
+
+int Integer::hashCode() const {
+	return Integer::hashCode(this->original);
+}
+
+int Integer::signum(int inputInt) {
+	if (inputInt == 0) {
+		return 0;
+	}
+	
+	if (inputInt > 0) {
+		return 1;
+	}
+	
+	return -1;
+}
+
+int Integer::sum(int intA, int intB) {
+	return intA + intB;
+}
+
+String Integer::toBinaryString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 2);
+}
+
+String Integer::toUnsignedString(int inputInt, int radix) {
+	if (inputInt == 0) {
+		return String("0");
+	}
+	
+	if (radix > 32 || radix < 2) {
+		radix = 10;
+	}
+	
+	std::stringstream stream;
+	String result;
+	
+	switch (radix) {
+		case 2:
+			// TODO change to java.util.BitSet
+			result = std::bitset<32>((unsigned long long int) Integer::toUnsignedLong(inputInt)).to_string();
+			result = result.getStringFromIndex(result.indexOf('1'));
+			return result;
+		case 8:
+			stream << std::oct << Integer::toUnsignedLong(inputInt);
+			result = stream.str();			
+			result.replace(',', '\0');
+			return result;
+		case 16:
+			stream << std::hex << Integer::toUnsignedLong(inputInt);
+			result = stream.str();
+			result.replace(',', '\0');
+			return result;;
+		case 10:
+			stream << std::dec << Integer::toUnsignedLong(inputInt);
+			result = stream.str();
+			result.replace(',', '\0');
+			return result;
+		default:
+			throw UnsupportedOperationException("Haven't support this radix yet");
+	}
+}
+
+String Integer::toUnsignedString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 10);
+}
+
+String Integer::toHexString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 16);
+}
+
+String Integer::toOctalString(int inputInt) {
+	return Integer::toUnsignedString(inputInt, 8);
+}
+
+Integer Integer::valueOf(int inputInt) {
+	return Integer(inputInt);
+}
+
+Integer Integer::valueOf(String inputString) {
+	return Integer::valueOf(Integer::parseInt(inputString));
+}
+
+Integer Integer::valueOf(String inputString, int radix) {
+	return Integer::valueOf(Integer::parseInt(inputString, radix));
+}
+
+String Integer::toString(int inputInt) {
+	return Integer::toString(inputInt, 10);
+}
+
+String Integer::toString(int inputInt, int radix) {
+	if (inputInt < 0) {
+		inputInt = -inputInt;
+		return String("-") + Integer::toUnsignedString(inputInt, radix);
+	}
+	
+	return Integer::toUnsignedString(inputInt, radix);
+}
diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 254b66f..a2fb07b 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -1,542 +1,542 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "Math.hpp"
-#include "../ArithmeticException/ArithmeticException.hpp"
-#include "../AssertionError/AssertionError.hpp"
-
-using namespace Java::Lang;
-
-int Math::abs(int value) {
-	return value >= 0 ? value : -value;
-}
-
-float Math::abs(float value) {
-	return value >= 0 ? value : -value;
-}
-
-long Math::abs(long value) {
-	return value >= 0 ? value : -value;
-}
-
-double Math::abs(double value) {
-	if(Double::isNaN(value)) {
-		return Double::NaN;
-	}
-	
-	return value >= 0 ? value : -value;
-}
-
-double Math::acos(double value) {
-	return ::acos(value);
-}
-
-double Math::asin(double value) {
-	return ::asin(value);
-}
-
-double Math::atan(double value) {
-	return ::atan(value);
-}
-
-double Math::atan2(double coordinateX, double coordinateY) {
-	return ::atan2(coordinateX, coordinateY);
-}
-
-long Math::addExact(long valueA, long valueB) {
-	long result = valueA + valueB;
-	if (((valueA ^ result) & (valueB ^ result)) < 0) {
-		throw ArithmeticException("long overflow");
-	}
-	return result;
-}
-
-int Math::addExact(int valueA, int valueB) {
-	int result = valueA + valueB;
-	if (((valueA ^ result) & (valueB ^ result)) < 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return result;
-}
-
-double Math::cbrt(double value) {
-	return ::cbrt(value);
-}
-
-double Math::ceil(double value) {
-	return ::ceil(value);
-}
-
-double Math::copySign(double magnitude, double sign) {
-	return ::copysign(magnitude, sign);
-}
-
-float Math::copySign(float magnitude, float sign) {
-	return ::copysignf(magnitude, sign);
-}
-
-double Math::cos(double angle) {
-	double result = ::cos(angle);
-	
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	
-	return ::cos(angle);
-}
-
-double Math::cosh(double angle) {
-	return ::cosh(angle);
-}
-
-long Math::decrementExact(long value) {
-	if (value == Long::MIN_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return value - 1;
-}
-
-int Math::decrementExact(int value) {
-	if (value == Integer::MIN_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return value - 1;
-}
-
-double Math::exp(double exponent) {
-	return ::exp(exponent);
-}
-
-double Math::expm1(double exponent) {
-	return ::expm1(exponent);
-}
-
-double Math::floor(double value) {
-	return ::floor(value);
-}
-
-int Math::floorDiv(int dividend, int divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException();
-	}
-	if (dividend == Integer::MIN_VALUE && divisor == -1) {
-		return dividend;
-	}
-	int result = dividend / divisor;
-	// if the signs are different and modulo not zero, round down
-	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-		result--;
-	}
-	return result;
-}
-
-long Math::floorDiv(long dividend, long divisor) {
-	if (divisor == 0) {
-		throw ArithmeticException();
-	}
-	if (dividend == Long::MIN_VALUE && divisor == -1) {
-		return dividend;
-	}
-	long result = dividend / divisor;
-	// if the signs are different and modulo not zero, round down
-	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-		result--;
-	}
-	return result;
-}
-
-int Math::floorMod(int dividend, int divisor) {
-	return dividend - (floorDiv(dividend, divisor) * divisor);
-}
-
-long Math::floorMod(long dividend, long divisor) {
-	return dividend - (floorDiv(dividend, divisor) * divisor);
-}
-
-int Math::getExponent(double value) {
-	if (Double::isNaN(value) || value == -INFINITY || value == INFINITY) {
-		return Double::MAX_EXPONENT + 1;
-	}
-	
-	if (value == -0 || value == 0) {
-		return Double::MIN_EXPONENT - 1;
-	}
-	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
-		return Double::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
-}
-
-int Math::getExponent(float value) {
-	if (Float::isNaN(value) || value == -INFINITY || value == INFINITY) {
-		return Float::MAX_EXPONENT + 1;
-	}
-	
-	if (value == -0 || value == 0) {
-		return Float::MIN_EXPONENT - 1;
-	}
-	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
-		return Float::MIN_EXPONENT - 1;
-	}
-	
-	return exponent - 1;
-}
-
-double Math::hypot(double valueA, double valueB) {
-	return ::hypot(valueA, valueB);
-}
-
-inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
-}
-
-double Math::IEEERemainder(double dividend, double divisor) {
-	double result = math_ieeeremainder(dividend, divisor);
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	return result;
-}
-
-int Math::incrementExact(int value) {
-	if (value == Integer::MAX_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return value + 1;
-}
-
-long Math::incrementExact(long value) {
-	if (value == Long::MAX_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return value + 1;
-}
-
-double Math::log(double value) {
-	return ::log(value);
-}
-
-double Math::log10(double value) {
-	return ::log10(value);
-}
-
-double Math::log1p(double value) {
-	double result = ::log1p(value);
-	
-	if(Double::isNaN(result)) {
-		return Math::abs(result);
-	}
-	
-	return ::log1p(value);
-}
-
-int Math::max(int valueA, int valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-float Math::max(float valueA, float valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-long Math::max(long valueA, long valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-double Math::max(double valueA, double valueB) {
-	return valueA > valueB ? valueA : valueB;
-}
-
-int Math::min(int valueA, int valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-float Math::min(float valueA, float valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-long Math::min(long valueA, long valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-double Math::min(double valueA, double valueB) {
-	return valueA < valueB ? valueA : valueB;
-}
-
-int Math::multiplyExact(int valueA, int valueB) {
-	long result = (long) valueA * (long) valueB;
-	if (result != (int) result) {
-		throw ArithmeticException("integer overflow");
-	}
-	return (int) result;
-}
-
-long Math::multiplyExact(long valueA, long valueB) {
-	long result;
-	if (__builtin_mul_overflow(valueA, valueB, &result)) {
-		throw ArithmeticException("long overflow");
-	}
-	return result;
-}
-
-int Math::negateExact(int intValue) {
-	if (intValue == Integer::MIN_VALUE) {
-		throw ArithmeticException("integer overflow");
-	}
-	return -intValue;
-}
-
-long Math::negateExact(long longValue) {
-	if (longValue == Long::MIN_VALUE) {
-		throw ArithmeticException("long overflow");
-	}
-	return -longValue;
-}
-
-double Math::nextAfter(double start, double direction) {
-	return nexttoward(start, direction);
-}
-
-float Math::nextAfter(float start, double direction) {
-	return nexttowardf(start, direction);
-}
-
-double Math::nextDown(double value) {
-	if (Double::isNaN(value) || value == Double::NEGATIVE_INFINITY) {
-		return value;
-	}
-	if (value == 0.0) {
-		return -Double::MIN_VALUE;
-	}
-	
-	return ::nexttoward(value, Double::NEGATIVE_INFINITY);
-}
-
-float Math::nextDown(float value) {
-	if (Float::isNaN(value) || value == Float::NEGATIVE_INFINITY) {
-		return value;
-	}
-	
-	if (value == 0.0) {
-		return -Float::MIN_VALUE;
-	}
-	
-	return ::nexttowardf(value, Float::NEGATIVE_INFINITY);
-}
-
-float Math::nextUp(float value) {
-	if (Float::isNaN(value) || value == Float::POSITIVE_INFINITY) {
-		return value;
-	}
-	
-	return ::nexttowardf(value, Float::POSITIVE_INFINITY);
-}
-
-double Math::nextUp(double value) {
-	if (Double::isNaN(value) || value == Double::POSITIVE_INFINITY) {
-		return value;
-	}
-	
-	return ::nexttoward(value, Double::POSITIVE_INFINITY);
-}
-
-double Math::pow(double base, double exponent) {
-	return ::pow(base, exponent);
-}
-
-double Math::powerOfTwoD(int exponent) {
-	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
-		throw AssertionError(exponent);
-	}
-	long oneLong = 1;
-	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
-		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
-}
-
-// TODO need Float::intBitsToFloat
-float Math::powerOfTwoF(int exponent) {
-	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
-		throw AssertionError(exponent);
-	}
-	
-	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
-			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
-	return 0;
-}
-
-double Math::random() {
-	Random random1 = Random();
-	return random1.nextDouble();
-}
-
-double Math::rint(double value) {
-	return ::rint(value);
-}
-
-int Math::round(float value) {
-	return (int) ::roundf(value);
-}
-
-long Math::round(double value) {
-	return (long) ::round(value);
-}
-
-float Math::scalb(float value, int scaleFactor) {
-	return ::ldexpf(value, scaleFactor);
-}
-
-double Math::scalb(double value, int scaleFactor) {
-	return ::scalbn(value, scaleFactor);
-}
-
-double Math::signum(double value) {
-	if (value == 0.0 || Double::isNaN(value)) {
-		return value;
-	}
-	return Math::copySign(1.0, value);
-}
-
-float Math::signum(float value) {
-	if (value == 0.0f || Float::isNaN(value)) {
-		return value;
-	}
-	
-	if (value == 0.0f) {
-		return -0.0f;
-	}
-	
-	return Math::copySign(1.0f, value);
-}
-
-double Math::sin(double angle) {
-	return ::sin(angle);
-}
-
-double Math::sinh(double angle) {
-	return ::sinh(angle);
-}
-
-double Math::sqrt(double value) {
-	return ::sqrt(value);
-}
-
-long Math::subtractExact(long valueA, long valueB) {
-	long result = valueA - valueB;
-	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
-		throw ArithmeticException("long overflow");
-	}
-	return result;
-}
-
-int Math::subtractExact(int valueA, int valueB) {
-	int result = valueA - valueB;
-	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
-		throw ArithmeticException("integer overflow");
-	}
-	return result;
-}
-
-double Math::tan(double angle) {
-	return ::tan(angle);
-}
-
-double Math::tanh(double angle) {
-	return ::tanh(angle);
-}
-
-double Math::toDegrees(double angleRadian) {
-	return angleRadian * 180.0 / PI;
-}
-
-int Math::toIntExact(long value) {
-	if (value != (int) value) {
-		throw ArithmeticException("integer overflow");
-	}
-	return (int) value;
-}
-
-double Math::toRadians(double angleDegree) {
-	return angleDegree / 180.0 * PI;
-}
-
-//TODO need Float::intBitsToFloat
-float Math::ulp(float value) {
-	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
-		return (float) Math::pow(2, 104);
-	}
-	int exp = getExponent(value);
-	switch(exp) {
-		case Float::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Float::MIN_EXPONENT - 1:        // zero or subnormal
-			return Float::MIN_VALUE;
-		default:
-			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Float::MIN_EXPONENT) {
-				return powerOfTwoF(exp);
-			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
-	}
-	return 0.0;
-}
-
-double Math::ulp(double value) {
-	if (value == Double::MAX_VALUE || value == -Double::MAX_VALUE) {
-		return Math::pow(2, 971);
-	}
-	int exp = getExponent(value);
-	switch (exp) {
-		case Double::MAX_EXPONENT + 1:        // NaN or infinity
-			return Math::abs(value);
-		case Double::MIN_EXPONENT - 1:        // zero or subnormal
-			return Double::MIN_VALUE;
-		default:
-			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
-				throw AssertionError(exp);
-			}
-			
-			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
-			if (exp >= Double::MIN_EXPONENT) {
-				return powerOfTwoD(exp);
-			}
-			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
-			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
-	}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+#include "../AssertionError/AssertionError.hpp"
+
+using namespace Java::Lang;
+
+int Math::abs(int value) {
+	return value >= 0 ? value : -value;
+}
+
+float Math::abs(float value) {
+	return value >= 0 ? value : -value;
+}
+
+long Math::abs(long value) {
+	return value >= 0 ? value : -value;
+}
+
+double Math::abs(double value) {
+	if(Double::isNaN(value)) {
+		return Double::NaN;
+	}
+	
+	return value >= 0 ? value : -value;
+}
+
+double Math::acos(double value) {
+	return ::acos(value);
+}
+
+double Math::asin(double value) {
+	return ::asin(value);
+}
+
+double Math::atan(double value) {
+	return ::atan(value);
+}
+
+double Math::atan2(double coordinateX, double coordinateY) {
+	return ::atan2(coordinateX, coordinateY);
+}
+
+long Math::addExact(long valueA, long valueB) {
+	long result = valueA + valueB;
+	if (((valueA ^ result) & (valueB ^ result)) < 0) {
+		throw ArithmeticException("long overflow");
+	}
+	return result;
+}
+
+int Math::addExact(int valueA, int valueB) {
+	int result = valueA + valueB;
+	if (((valueA ^ result) & (valueB ^ result)) < 0) {
+		throw ArithmeticException("integer overflow");
+	}
+	return result;
+}
+
+double Math::cbrt(double value) {
+	return ::cbrt(value);
+}
+
+double Math::ceil(double value) {
+	return ::ceil(value);
+}
+
+double Math::copySign(double magnitude, double sign) {
+	return ::copysign(magnitude, sign);
+}
+
+float Math::copySign(float magnitude, float sign) {
+	return ::copysignf(magnitude, sign);
+}
+
+double Math::cos(double angle) {
+	double result = ::cos(angle);
+	
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	
+	return ::cos(angle);
+}
+
+double Math::cosh(double angle) {
+	return ::cosh(angle);
+}
+
+long Math::decrementExact(long value) {
+	if (value == Long::MIN_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return value - 1;
+}
+
+int Math::decrementExact(int value) {
+	if (value == Integer::MIN_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return value - 1;
+}
+
+double Math::exp(double exponent) {
+	return ::exp(exponent);
+}
+
+double Math::expm1(double exponent) {
+	return ::expm1(exponent);
+}
+
+double Math::floor(double value) {
+	return ::floor(value);
+}
+
+int Math::floorDiv(int dividend, int divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException();
+	}
+	if (dividend == Integer::MIN_VALUE && divisor == -1) {
+		return dividend;
+	}
+	int result = dividend / divisor;
+	// if the signs are different and modulo not zero, round down
+	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
+		result--;
+	}
+	return result;
+}
+
+long Math::floorDiv(long dividend, long divisor) {
+	if (divisor == 0) {
+		throw ArithmeticException();
+	}
+	if (dividend == Long::MIN_VALUE && divisor == -1) {
+		return dividend;
+	}
+	long result = dividend / divisor;
+	// if the signs are different and modulo not zero, round down
+	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
+		result--;
+	}
+	return result;
+}
+
+int Math::floorMod(int dividend, int divisor) {
+	return dividend - (floorDiv(dividend, divisor) * divisor);
+}
+
+long Math::floorMod(long dividend, long divisor) {
+	return dividend - (floorDiv(dividend, divisor) * divisor);
+}
+
+int Math::getExponent(double value) {
+	if (Double::isNaN(value) || value == -INFINITY || value == INFINITY) {
+		return Double::MAX_EXPONENT + 1;
+	}
+	
+	if (value == -0 || value == 0) {
+		return Double::MIN_EXPONENT - 1;
+	}
+	
+	double mantissas;
+	int exponent;
+	mantissas = std::frexp(value, &exponent);
+	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
+		return Double::MIN_EXPONENT - 1;
+	}
+	
+	return exponent - 1;
+}
+
+int Math::getExponent(float value) {
+	if (Float::isNaN(value) || value == -INFINITY || value == INFINITY) {
+		return Float::MAX_EXPONENT + 1;
+	}
+	
+	if (value == -0 || value == 0) {
+		return Float::MIN_EXPONENT - 1;
+	}
+	
+	double mantissas;
+	int exponent;
+	mantissas = std::frexp(value, &exponent);
+	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
+		return Float::MIN_EXPONENT - 1;
+	}
+	
+	return exponent - 1;
+}
+
+double Math::hypot(double valueA, double valueB) {
+	return ::hypot(valueA, valueB);
+}
+
+inline double math_ieeeremainder(double dividend, double divisor) {
+	return dividend - ( round(dividend / divisor) * divisor );
+}
+
+double Math::IEEERemainder(double dividend, double divisor) {
+	double result = math_ieeeremainder(dividend, divisor);
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	return result;
+}
+
+int Math::incrementExact(int value) {
+	if (value == Integer::MAX_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return value + 1;
+}
+
+long Math::incrementExact(long value) {
+	if (value == Long::MAX_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return value + 1;
+}
+
+double Math::log(double value) {
+	return ::log(value);
+}
+
+double Math::log10(double value) {
+	return ::log10(value);
+}
+
+double Math::log1p(double value) {
+	double result = ::log1p(value);
+	
+	if(Double::isNaN(result)) {
+		return Math::abs(result);
+	}
+	
+	return ::log1p(value);
+}
+
+int Math::max(int valueA, int valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+float Math::max(float valueA, float valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+long Math::max(long valueA, long valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+double Math::max(double valueA, double valueB) {
+	return valueA > valueB ? valueA : valueB;
+}
+
+int Math::min(int valueA, int valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+float Math::min(float valueA, float valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+long Math::min(long valueA, long valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+double Math::min(double valueA, double valueB) {
+	return valueA < valueB ? valueA : valueB;
+}
+
+int Math::multiplyExact(int valueA, int valueB) {
+	long result = (long) valueA * (long) valueB;
+	if (result != (int) result) {
+		throw ArithmeticException("integer overflow");
+	}
+	return (int) result;
+}
+
+long Math::multiplyExact(long valueA, long valueB) {
+	long result;
+	if (__builtin_mul_overflow(valueA, valueB, &result)) {
+		throw ArithmeticException("long overflow");
+	}
+	return result;
+}
+
+int Math::negateExact(int intValue) {
+	if (intValue == Integer::MIN_VALUE) {
+		throw ArithmeticException("integer overflow");
+	}
+	return -intValue;
+}
+
+long Math::negateExact(long longValue) {
+	if (longValue == Long::MIN_VALUE) {
+		throw ArithmeticException("long overflow");
+	}
+	return -longValue;
+}
+
+double Math::nextAfter(double start, double direction) {
+	return nexttoward(start, direction);
+}
+
+float Math::nextAfter(float start, double direction) {
+	return nexttowardf(start, direction);
+}
+
+double Math::nextDown(double value) {
+	if (Double::isNaN(value) || value == Double::NEGATIVE_INFINITY) {
+		return value;
+	}
+	if (value == 0.0) {
+		return -Double::MIN_VALUE;
+	}
+	
+	return ::nexttoward(value, Double::NEGATIVE_INFINITY);
+}
+
+float Math::nextDown(float value) {
+	if (Float::isNaN(value) || value == Float::NEGATIVE_INFINITY) {
+		return value;
+	}
+	
+	if (value == 0.0) {
+		return -Float::MIN_VALUE;
+	}
+	
+	return ::nexttowardf(value, Float::NEGATIVE_INFINITY);
+}
+
+float Math::nextUp(float value) {
+	if (Float::isNaN(value) || value == Float::POSITIVE_INFINITY) {
+		return value;
+	}
+	
+	return ::nexttowardf(value, Float::POSITIVE_INFINITY);
+}
+
+double Math::nextUp(double value) {
+	if (Double::isNaN(value) || value == Double::POSITIVE_INFINITY) {
+		return value;
+	}
+	
+	return ::nexttoward(value, Double::POSITIVE_INFINITY);
+}
+
+double Math::pow(double base, double exponent) {
+	return ::pow(base, exponent);
+}
+
+double Math::powerOfTwoD(int exponent) {
+	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
+		throw AssertionError(exponent);
+	}
+	long oneLong = 1;
+	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
+		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
+}
+
+// TODO need Float::intBitsToFloat
+float Math::powerOfTwoF(int exponent) {
+	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
+		throw AssertionError(exponent);
+	}
+	
+	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
+			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
+	return 0;
+}
+
+double Math::random() {
+	Random random1 = Random();
+	return random1.nextDouble();
+}
+
+double Math::rint(double value) {
+	return ::rint(value);
+}
+
+int Math::round(float value) {
+	return (int) ::roundf(value);
+}
+
+long Math::round(double value) {
+	return (long) ::round(value);
+}
+
+float Math::scalb(float value, int scaleFactor) {
+	return ::ldexpf(value, scaleFactor);
+}
+
+double Math::scalb(double value, int scaleFactor) {
+	return ::scalbn(value, scaleFactor);
+}
+
+double Math::signum(double value) {
+	if (value == 0.0 || Double::isNaN(value)) {
+		return value;
+	}
+	return Math::copySign(1.0, value);
+}
+
+float Math::signum(float value) {
+	if (value == 0.0f || Float::isNaN(value)) {
+		return value;
+	}
+	
+	if (value == 0.0f) {
+		return -0.0f;
+	}
+	
+	return Math::copySign(1.0f, value);
+}
+
+double Math::sin(double angle) {
+	return ::sin(angle);
+}
+
+double Math::sinh(double angle) {
+	return ::sinh(angle);
+}
+
+double Math::sqrt(double value) {
+	return ::sqrt(value);
+}
+
+long Math::subtractExact(long valueA, long valueB) {
+	long result = valueA - valueB;
+	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
+		throw ArithmeticException("long overflow");
+	}
+	return result;
+}
+
+int Math::subtractExact(int valueA, int valueB) {
+	int result = valueA - valueB;
+	if (((valueA ^ valueB) & (valueA ^ result)) < 0) {
+		throw ArithmeticException("integer overflow");
+	}
+	return result;
+}
+
+double Math::tan(double angle) {
+	return ::tan(angle);
+}
+
+double Math::tanh(double angle) {
+	return ::tanh(angle);
+}
+
+double Math::toDegrees(double angleRadian) {
+	return angleRadian * 180.0 / PI;
+}
+
+int Math::toIntExact(long value) {
+	if (value != (int) value) {
+		throw ArithmeticException("integer overflow");
+	}
+	return (int) value;
+}
+
+double Math::toRadians(double angleDegree) {
+	return angleDegree / 180.0 * PI;
+}
+
+//TODO need Float::intBitsToFloat
+float Math::ulp(float value) {
+	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
+		return (float) Math::pow(2, 104);
+	}
+	int exp = getExponent(value);
+	switch(exp) {
+		case Float::MAX_EXPONENT + 1:        // NaN or infinity
+			return Math::abs(value);
+		case Float::MIN_EXPONENT - 1:        // zero or subnormal
+			return Float::MIN_VALUE;
+		default:
+			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
+				throw AssertionError(exp);
+			}
+			
+			exp = exp - (Float::SIGNIFICAND_WIDTH - 1);
+			if (exp >= Float::MIN_EXPONENT) {
+				return powerOfTwoF(exp);
+			}
+			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
+														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
+	}
+	return 0.0;
+}
+
+double Math::ulp(double value) {
+	if (value == Double::MAX_VALUE || value == -Double::MAX_VALUE) {
+		return Math::pow(2, 971);
+	}
+	int exp = getExponent(value);
+	switch (exp) {
+		case Double::MAX_EXPONENT + 1:        // NaN or infinity
+			return Math::abs(value);
+		case Double::MIN_EXPONENT - 1:        // zero or subnormal
+			return Double::MIN_VALUE;
+		default:
+			if (exp > Double::MAX_EXPONENT || exp < Double::MIN_EXPONENT) {
+				throw AssertionError(exp);
+			}
+			
+			exp = exp - (Double::SIGNIFICAND_WIDTH - 1);
+			if (exp >= Double::MIN_EXPONENT) {
+				return powerOfTwoD(exp);
+			}
+			
+			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
+			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
+	}
 }
\ No newline at end of file
diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 62544d4..4a1b90e 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -1,269 +1,269 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "Short.hpp"
-#include "../ArithmeticException/ArithmeticException.hpp"
-
-using namespace Java::Lang;
-
-/**
- * Integer initialization
- *
- * @param original
- */
-Short::Short() {
-	this->original = 0;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-/**
- * Short initialization
- *
- * @param original
- */
-Short::Short(short original) {
-	this->original = original;
-	asprintf(&this->originalString, "%d", this->original);
-}
-
-/**
- * Short initialization
- *
- * @param original
- */
-Short::Short(const Short &shortNumber) {
-	this->original = shortNumber.original;
-    asprintf(&this->originalString, "%d", this->original);
-}
-
-Short::~Short() {
-	if (this->originalString != nullptr) {
-		free(this->originalString);
-	}
-}
-
-/**
- * Parse short
- *
- * @param target
- * @return short
- */
-Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
-}
-
-/**
- * Short to String
- *
- * @return String
- */
-String Short::toString() const {
-	return this->originalString;
-}
-
-/**
- * Short to Char
- *
- * @return char
- */
-char Short::charValue() const {
-    string stringFromShort;
-    char result;
-    asprintf(&stringFromShort, "%d", this->original);
-    if (stringFromShort == "") {
-        result = '\0';
-    } else {
-        result = stringFromShort[0];
-    }
-    free(stringFromShort);
-    return result;
-}
-
-/**
- * Short value of Short
- *
- * @return short
- */
-short Short::shortValue() const {
-	return this->original;
-}
-
-/**
- * Integer value of short
- *
- * @return int
- */
-int Short::intValue() const {
-	return this->original;
-}
-
-/**
- * Long value of short
- *
- * @return int
- */
-long Short::longValue() const {
-	return this->original;
-}
-
-/**
- * Short value in float
- *
- * @return int
- */
-float Short::floatValue() const {
-	return (float)this->original;
-}
-
-/**
- * Short value in double
- *
- * @return int
- */
-double Short::doubleValue() const {
-	return (double)this->original;
-}
-
-/**
- * Assign value of this object same as value of target object
- *
- * @param target
- * @return Short
- */
-Short Short::operator=(const Short &target) {
-	this->original = target.original;
-	free(this->originalString);
-    asprintf(&this->originalString, "%d", this->original);
-	return *this;
-}
-
-/**
- * Make a summation with target Short
- *
- * @return Integer
- */
-Short Short::operator+(const Short &target) {
-	return this->original + target.original;
-}
-
-/**
- * Make a subtraction with target Shortr
- *
- * @return Short
- */
-Short Short::operator-(const Short &target) {
-	return this->original - target.original;
-}
-
-/**
- * Make a multiple from this Short with target
- *
- * @return Short
- */
-Short Short::operator*(const Short &target) {
-	return ( this->original * target.original );
-}
-
-/**
- *  Make a division from this Short with target
- *
- * @return Short
- */
-Short Short::operator/(const Short &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (this->original / target.original);
-}
-
-/**
- * Make a modulo from this Short with target
- *
- * @return Short
- */
-Short Short::operator%(const Short &target) {
-	if (target.original == 0) {
-		throw ArithmeticException("Divide by zero");
-	}
-	return (this->original % target.original);
-}
-
-/**
- * Compare this Long is equal target
- *
- * @return bool
- */
-boolean Short::operator==(const Short &target) const {
-	return this->original == target.original;
-}
-
-/**
- * Compare this Short is not equal target
- *
- * @return bool
- */
-boolean Short::operator!=(const Short &target) const {
-	return !this->operator==(target);
-}
-
-/**
- * Compare this Short is less than target
- *
- * @return bool
- */
-boolean Short::operator<(const Short &target) const {
-	return this->original < target.original;
-}
-
-/**
- * Compare this Short is more than target
- *
- * @return bool
- */
-boolean Short::operator>(const Short &target) const {
-	return this->original > target.original;
-}
-
-/**
- * Compare this Short is equal or less than target
- *
- * @return bool
- */
-boolean Short::operator<=(const Short &target) const {
-	return this->original <= target.original;
-}
-
-/**
- *  Compare this Short is equal or more than target
- *
- * @return bool
- */
-boolean Short::operator>=(const Short &target) const {
-	return this->original >= target.original;
-}
-
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "Short.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
+
+using namespace Java::Lang;
+
+/**
+ * Integer initialization
+ *
+ * @param original
+ */
+Short::Short() {
+	this->original = 0;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+/**
+ * Short initialization
+ *
+ * @param original
+ */
+Short::Short(short original) {
+	this->original = original;
+	asprintf(&this->originalString, "%d", this->original);
+}
+
+/**
+ * Short initialization
+ *
+ * @param original
+ */
+Short::Short(const Short &shortNumber) {
+	this->original = shortNumber.original;
+    asprintf(&this->originalString, "%d", this->original);
+}
+
+Short::~Short() {
+	if (this->originalString != nullptr) {
+		free(this->originalString);
+	}
+}
+
+/**
+ * Parse short
+ *
+ * @param target
+ * @return short
+ */
+Short Short::parseShort(String target) {
+    short result;
+    sscanf(target.toCharPointer(), "%hi", &result);
+	return (Short) result;
+}
+
+/**
+ * Short to String
+ *
+ * @return String
+ */
+String Short::toString() const {
+	return this->originalString;
+}
+
+/**
+ * Short to Char
+ *
+ * @return char
+ */
+char Short::charValue() const {
+    string stringFromShort;
+    char result;
+    asprintf(&stringFromShort, "%d", this->original);
+    if (stringFromShort == "") {
+        result = '\0';
+    } else {
+        result = stringFromShort[0];
+    }
+    free(stringFromShort);
+    return result;
+}
+
+/**
+ * Short value of Short
+ *
+ * @return short
+ */
+short Short::shortValue() const {
+	return this->original;
+}
+
+/**
+ * Integer value of short
+ *
+ * @return int
+ */
+int Short::intValue() const {
+	return this->original;
+}
+
+/**
+ * Long value of short
+ *
+ * @return int
+ */
+long Short::longValue() const {
+	return this->original;
+}
+
+/**
+ * Short value in float
+ *
+ * @return int
+ */
+float Short::floatValue() const {
+	return (float)this->original;
+}
+
+/**
+ * Short value in double
+ *
+ * @return int
+ */
+double Short::doubleValue() const {
+	return (double)this->original;
+}
+
+/**
+ * Assign value of this object same as value of target object
+ *
+ * @param target
+ * @return Short
+ */
+Short Short::operator=(const Short &target) {
+	this->original = target.original;
+	free(this->originalString);
+    asprintf(&this->originalString, "%d", this->original);
+	return *this;
+}
+
+/**
+ * Make a summation with target Short
+ *
+ * @return Integer
+ */
+Short Short::operator+(const Short &target) {
+	return this->original + target.original;
+}
+
+/**
+ * Make a subtraction with target Shortr
+ *
+ * @return Short
+ */
+Short Short::operator-(const Short &target) {
+	return this->original - target.original;
+}
+
+/**
+ * Make a multiple from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator*(const Short &target) {
+	return ( this->original * target.original );
+}
+
+/**
+ *  Make a division from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (this->original / target.original);
+}
+
+/**
+ * Make a modulo from this Short with target
+ *
+ * @return Short
+ */
+Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
+	return (this->original % target.original);
+}
+
+/**
+ * Compare this Long is equal target
+ *
+ * @return bool
+ */
+boolean Short::operator==(const Short &target) const {
+	return this->original == target.original;
+}
+
+/**
+ * Compare this Short is not equal target
+ *
+ * @return bool
+ */
+boolean Short::operator!=(const Short &target) const {
+	return !this->operator==(target);
+}
+
+/**
+ * Compare this Short is less than target
+ *
+ * @return bool
+ */
+boolean Short::operator<(const Short &target) const {
+	return this->original < target.original;
+}
+
+/**
+ * Compare this Short is more than target
+ *
+ * @return bool
+ */
+boolean Short::operator>(const Short &target) const {
+	return this->original > target.original;
+}
+
+/**
+ * Compare this Short is equal or less than target
+ *
+ * @return bool
+ */
+boolean Short::operator<=(const Short &target) const {
+	return this->original <= target.original;
+}
+
+/**
+ *  Compare this Short is equal or more than target
+ *
+ * @return bool
+ */
+boolean Short::operator>=(const Short &target) const {
+	return this->original >= target.original;
+}
+
diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 271f19b..29059a3 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -1,911 +1,911 @@
-/**
- * Copyright 2017-2020 Tiny Express Project. All rights reserved.
- *
- * Redistribution and use in source and binary forms, with or without
- * modification, are permitted provided that the following conditions are met:
- *
- * Redistributions of source code must retain the above copyright
- * notice, this list of conditions and the following disclaimer.
- * Redistributions in binary form must reproduce the above
- * copyright notice, this list of conditions and the following disclaimer
- * in the documentation and/or other materials provided with the
- * distribution.
- *
- * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
- * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
- * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
- * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
- * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
- * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
- * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
- * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
- * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
- */
-
-#include "String.hpp"
-#include "../StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
-#include "../StringBuilder/StringBuilder.hpp"
-#include "../StringBuffer/StringBuffer.hpp"
-#include "../IllegalArgumentException/IllegalArgumentException.hpp"
-
-using namespace Java::Lang;
-
-std::wstring multiByteStringToWideString(const std::string &input) {
-    setlocale(LC_CTYPE, "");
-    try {
-        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
-    } catch (std::exception &exception) {
-        std::wstring emptyString;
-        return emptyString;
-    }
-}
-
-std::string wideStringToMultiByteString(const std::wstring &input) {
-    setlocale(LC_CTYPE, "");
-    try {
-        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
-    } catch (std::exception &exception) {
-        std::string emptyString;
-        return emptyString;
-    }
-}
-
-std::string toUpper(const std::string &input) {
-	std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
-	return wideStringToMultiByteString(wideString);
-}
-
-std::string toLower(const std::string &input) {
-    std::wstring wideString = multiByteStringToWideString(input);
-    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
-    return wideStringToMultiByteString(wideString);
-}
-
-String::String() = default;
-
-String::~String() = default;
-
-String::String(string original, int length) {
-	this->original = std::string(original, original + (size_t) length);
-}
-
-String::String(const_string original, int length) {
-    this->original = std::string(original, original + (size_t) length);
-}
-
-String::String(const Array<char> &charArray) {
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = 0; i < charArray.length; i++) {
-		this->original += charArray[i];
-	}
-}
-
-String::String(const Array<byte> &byteArray) {
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = 0; i < byteArray.length; i++) {
-		this->original += byteArray[i];
-	}
-}
-
-String::String(const String &target) {
-	this->original = target.original;
-}
-
-String::String(const StringBuilder &stringBuilder) {
-	this->original = std::string(stringBuilder.toString().toCharPointer());
-}
-
-String::String(const StringBuffer &stringBuffer) {
-	this->original = std::string(stringBuffer.getValue().toCharPointer());
-}
-
-String::String(const Array<char> &array, int offset, int length) {
-	if (offset < 0) {
-		throw StringIndexOutOfBoundsException(offset);
-	}
-	if (length < 0) {
-		throw StringIndexOutOfBoundsException(length);
-	}
-	if (offset > array.length - length) {
-		throw StringIndexOutOfBoundsException(offset + length);
-	}
-
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = offset; i < offset + length; ++i) {
-		this->original.push_back(array[i]);
-	}
-}
-
-String::String(const Array<byte> &array, int offset, int length) {
-	if (offset < 0) {
-		throw StringIndexOutOfBoundsException(offset);
-	}
-	if (length < 0) {
-		throw StringIndexOutOfBoundsException(length);
-	}
-	if (offset > array.length - length) {
-		throw StringIndexOutOfBoundsException(offset + length);
-	}
-
-	this->original.clear();
-	this->original.shrink_to_fit();
-	int i;
-	for (i = offset; i < offset + length; i++) {
-		this->original.push_back((char) array[i]);
-	}
-}
-
-int String::getSize() const {
-	return this->original.size();
-}
-
-String String::clone() {
-	return this->original;
-}
-
-char String::charAt(int index) const {
-	if (index < 0 || index >= (int) this->original.size()) {
-		throw StringIndexOutOfBoundsException("String index out of range");
-	}
-	return (this->original[index]);
-}
-
-int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
-}
-
-int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
-}
-
-String String::concat(const String &target) const {
-    return this->original + target.original;
-}
-
-boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
-	if (found != std::string::npos) {
-		return true;
-	} else {
-		return false;
-	}
-}
-
-boolean String::contains(const String &input) const {
-	std::size_t found = this->original.find(input.toSTLString());
-	if (found != std::string::npos) {
-		return true;
-	} else {
-		return false;
-	}
-}
-
-
-Array<byte> String::getBytes() const {
-	Array<byte> bytes;
-	for (int i = 0; i < this->original.size(); ++i) {
-		bytes.push((byte) this->original.c_str()[i]);
-	}
-	return bytes;
-}
-
-String String::getStringFromIndex(int index) const {
-	if (index < 0 || index >= (int) this->original.size()) {
-		throw StringIndexOutOfBoundsException(index);
-	}
-	return this->original.substr(index);
-}
-
-boolean String::endsWith(const String &suffixString) const {
-	int suffixLength = suffixString.toString().length();
-	int targetLength = this->original.size();
-	if (targetLength < suffixLength) {
-		return false;
-	}
-	int i;
-	for (i = suffixLength - 1; i >= 0; i--) {
-		if (suffixString[i] != this->original[targetLength - suffixLength + i]) {
-			return false;
-		}
-	}
-	return true;
-}
-
-String String::fromCharArray(const Array<char> &charArray) {
-	return String(charArray);
-}
-
-int String::indexOf(int character) const {
-	std::size_t found = this->original.find((char) character);
-	if (found != std::string::npos) {
-		return (int) found;
-	}
-	return -1;
-}
-
-int String::indexOf(int character, int fromIndex) const {
-	if (fromIndex > (int) this->original.size()) {
-		return -1;
-	}
-	if (fromIndex < 0) {
-		return this->indexOf(character);
-	}
-
-	int index = 0;
-	for (index = fromIndex; index < this->original.size(); index++) {
-		if (this->original[index] == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::indexOf(const String &subString) const {
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
-	std::size_t found = this->original.find(subString.original);
-	if (found != std::string::npos) {
-		return (int) found;
-	}
-	return -1;
-}
-
-int String::indexOf(const String &subString, int fromIndex) const {
-	if (fromIndex < 0) {
-		return this->indexOf(subString);
-	}
-	if (this->original.size() == 0 || subString == "") {
-		return -1;
-	}
-	if (fromIndex > (this->original.size() - 1) || (this->original.size()) < (subString.original.size())) {
-		return -1;
-	}
-	std::string stringFromIndex = (this)->original.substr(fromIndex);
-	std::size_t found = stringFromIndex.find(subString.original);
-	if (found != std::string::npos) {
-		return (int) (found + fromIndex);
-	}
-	return -1;
-}
-
-boolean String::isEmpty() const {
-	return (boolean) this->original.empty();
-}
-
-int String::lastIndexOf(int character) const {
-	int index = 0;
-	for (index = (int) this->original.size() - 1; index >= 0; index--) {
-		if (this->charAt(index) == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::lastIndexOf(int character, int fromIndex) const {
-	if (fromIndex < 0) {
-		return -1;
-	}
-	if (fromIndex >= (int) this->original.size()) {
-		return this->lastIndexOf(character);
-	}
-
-	int index = 0;
-	for (index = fromIndex; index >= 0; index--) {
-		if (this->charAt(index) == (char) character) {
-			return index;
-		}
-	}
-	return -1;
-}
-
-int String::lastIndexOf(const String &subString) const {
-	String reversedString = subString;
-	std::reverse(reversedString.original.begin(), reversedString.original.end());
-	std::string currentReversedString = this->original;
-	std::reverse(currentReversedString.begin(), currentReversedString.end());
-	std::size_t found = currentReversedString.find(reversedString.original);
-	if (found == std::string::npos) {
-		return -1;
-	}
-	return ((int) this->original.size() - (int) (found + subString.original.size()));
-}
-
-int String::lastIndexOf(const String &subString, int fromIndex) const {
-
-	if (fromIndex < 0) {
-		return -1;
-	}
-	if (fromIndex > this->original.size() - 1) {
-		return this->lastIndexOf(subString);
-	}
-	std::string thisStringReversed = this->original;
-	std::reverse(thisStringReversed.begin(), thisStringReversed.end());
-	int indexToCreatSubString = (int) this->original.size() - fromIndex - subString.length();
-	if (indexToCreatSubString > this->original.size()) {
-		return -1;
-	}
-	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
-	std::reverse(reversedString.begin(), reversedString.end());
-	auto result = (int) subStringFromIndex.find(reversedString);
-	if (result == -1) {
-		return result;
-	}
-
-	// Re-calculate first character of str
-	result = fromIndex - result;
-	return result;
-}
-
-String String::replace(char oldChar, char newChar) const {
-	std::string copyString = (std::string) this->original;
-	for (int index = 0; index < this->original.size(); index++) {
-		if (this->original[index] == oldChar) {
-			copyString[index] = newChar;
-		}
-	}
-	return copyString;
-}
-
-String String::replaceAll(const String &regex, const String &replacement) const {
-	// TODO (anhnt) fix this later, temporary use replace, need Pattern
-	return replace(regex, replacement);
-}
-
-Array<String> String::split(const String &regex) const {
-	// TODO (anhnt) fix this later, temporary use replace, need Pattern
-	Array<String> strings;
-	if (this->original.c_str() == nullptr || regex.original.c_str() == nullptr) {
-		return strings;
-	}
-	size_t pos = 0;
-	size_t pre = 0;
-	std::string targetString = regex.original;
-	std::string result;
-	if (targetString.empty()) { // every character on its own
-		for (char c : this->original) {
-			strings.push(String(&c, 1));
-		}
-		return strings;
-	}
-	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
-
-		for (; pre < pos; pre++) {
-			result += this->original[pre];
-		}
-		strings.push(result);
-		pre += targetString.size();
-		pos += targetString.length();
-		result = "";
-	}
-	for (; pre < this->length(); pre++) {
-		result += this->original[pre];
-	}
-	strings.push(result);
-	return strings;
-}
-
-boolean String::startsWith(const String &prefix) const {
-	if (this->original.c_str() == nullptr || prefix.original.c_str() == nullptr) {
-		return false;
-	}
-	int lengthOriginal = (int) this->original.size();
-	int lengthPrefix = (int) prefix.original.size();
-	if (lengthOriginal < lengthPrefix) {
-		return false;
-	}
-	for (int index = 0; index < lengthPrefix; index++) {
-		if (this->original[index] != prefix.original[index]) {
-			return false;
-		}
-	}
-	return true;
-}
-
-boolean String::startsWith(String prefix, int thisOffset) const {
-	if (thisOffset < 0) {
-		return false;
-	}
-	int originalLength = (int) this->original.size();
-	int prefixLength = (int) prefix.original.size();
-	if (originalLength < prefixLength || thisOffset > (originalLength - prefixLength)) {
-		return false;
-	}
-
-	int firstIndex = 0, secondIndex = thisOffset;
-	for (; firstIndex < prefixLength; firstIndex++) {
-		if (prefix.original[firstIndex] != this->original[secondIndex]) {
-			return false;
-		}
-		secondIndex++;
-	}
-	return true;
-}
-
-Array<char> String::toCharArray() const {
-	Array<char> chars;
-	for (char c : this->original) {
-		chars.push(c);
-	}
-	return chars;
-}
-
-string String::toCharPointer() const {
-	return (string) this->original.c_str();
-}
-
-std::string String::toSTLString() const {
-    return this->original;
-}
-
-String String::toString() const {
-	return *this;
-}
-
-String String::toLowerCase() const {
-	return toLower(this->original);
-}
-
-String String::toUpperCase() const {
-	return toUpper(this->original);
-}
-
-String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
-	if (std::string::npos == first) {
-		return "";
-	}
-	size_t last = this->original.find_last_not_of(' ');
-	return this->original.substr(first, (last - first + 1));
-}
-
-String String::valueOf(boolean target) {
-	if (target) {
-		return (string) "true";
-	}
-	return (string) "false";
-}
-
-String String::valueOf(char charValue) {
-	string pointerHolder;
-	if (charValue == '\0') {
-		pointerHolder = stringCopy("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = charValue;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	String output = pointerHolder;
-	free(pointerHolder);
-	return output;
-}
-
-String String::valueOf(string stringValue) {
-	if (stringValue == nullptr) {
-		return (string) "";
-	}
-	return stringValue;
-}
-
-String String::valueOf(short shortValue) {
-	String result = std::to_string(shortValue);
-	return result;
-}
-
-String String::valueOf(int intValue) {
-	String result = std::to_string(intValue);
-	return result;
-}
-
-String String::valueOf(long longValue) {
-	String result = std::to_string(longValue);
-	return result;
-}
-
-String String::valueOf(long long longValue) {
-    String result = std::to_string(longValue);
-    return result;
-}
-
-String String::valueOf(float floatValue) {
-	string pointerHolder;
-	asprintf(&pointerHolder, "%g", floatValue);
-	String result = pointerHolder;
-	free(pointerHolder);
-	return result;
-}
-
-String String::valueOf(double doubleValue) {
-	int precision = 15;
-	string pointerHolder = (string) calloc(1079, sizeof(char));
-	if (doubleValue == 0.0f && doubleValue < 0) {
-		sprintf(pointerHolder, "-%.*f", precision, doubleValue);
-	} else {
-		sprintf(pointerHolder, "%.*f", precision, doubleValue);
-	}
-	String result = pointerHolder;
-	free(pointerHolder);
-	return result;
-}
-
-String String::subString(int beginIndex) const {
-	return this->subString(beginIndex, (int) this->original.length());
-}
-
-String String::subString(int beginIndex, int endIndex) const {
-	if (this->original.c_str() == nullptr) {
-		return "";
-	}
-	int lengthTarget = this->length();
-	if (beginIndex > endIndex || beginIndex < 0 || beginIndex > lengthTarget || endIndex < 0 ||
-	    endIndex > lengthTarget) {
-		return "";
-	}
-	std::string result = this->original.substr(beginIndex, endIndex - beginIndex);
-	return result;
-}
-
-boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
-}
-
-String String::copyValueOf(const Array<char> &charArray) {
-	return String(charArray);
-}
-
-String String::copyValueOf(const Array<char> &charArray, int offset, int count) {
-	return String(charArray, offset, count);
-}
-
-boolean String::equals(const String &anotherString) const {
-    return this->original == anotherString.original;
-}
-
-boolean String::equalsIgnoreCase(const String &anotherString) const {
-	return this->compareToIgnoreCase(anotherString) == 0;
-}
-
-long String::hashCode() const {
-	int hashCode = 0; // not cached: operator=, operator+= change the characters
-	for (int i = 0; i < this->original.size(); i++) {
-		hashCode = 31 * hashCode + this->original[i];
-	}
-	this->hash = hashCode;
-	return hashCode;
-}
-
-boolean String::regionMatches(int thisOffset,
-                              const String &otherString, int otherOffset, int len) const {
-	return this->regionMatches(false, thisOffset, otherString, otherOffset, len);
-}
-
-boolean String::regionMatches(boolean ignoreCase, int thisOffset,
-                              const String &otherString, int otherOffset, int len) const {
-	String thisString = this->subString(thisOffset, thisOffset + len);
-	var subString = otherString.subString(otherOffset, otherOffset + len);
-	if (ignoreCase) {
-		return thisString.compareToIgnoreCase(subString) == 0;
-	}
-	return thisString.compareTo(subString) == 0;
-}
-
-void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination, int destinationBegin) const {
-	if (sourceBegin < 0) {
-		throw StringIndexOutOfBoundsException(sourceBegin);
-	}
-	if (sourceBegin > sourceEnd) {
-		throw StringIndexOutOfBoundsException(sourceEnd - sourceBegin);
-	}
-	if (sourceEnd > this->length()) {
-		throw StringIndexOutOfBoundsException(sourceEnd);
-	}
-	if (destinationBegin < 0) {
-		throw StringIndexOutOfBoundsException(destinationBegin);
-	}
-	if (destinationBegin > destination.length - (sourceEnd - sourceBegin)) {
-		throw StringIndexOutOfBoundsException(destinationBegin
-		                                      + (sourceEnd - sourceBegin));
-	}
-	int len = sourceEnd - sourceBegin;
-	int newDestinationSize = destinationBegin + len;
-	for (int index = 0; index < newDestinationSize; index++) {
-		if (index >= destinationBegin && index < destinationBegin + len) {
-			destination[index] = this->charAt(sourceBegin);
-			sourceBegin++;
-			continue;
-		}
-		destination[index] = destination[index];
-	}
-}
-
-String String::replace(const CharSequence &target, const CharSequence &replacement) const {
-	if ((string) target.toString().toCharPointer() == nullptr ||
-	    (string) replacement.toString().toCharPointer() == nullptr ||
-	    (string) this->toString().toCharPointer() == nullptr) {
-		return "";
-	}
-	size_t pos = 0;
-	size_t pre = 0;
-	std::string targetString = target.toString().original;
-	std::string replaceString = replacement.toString().original;
-	std::string result;
-	if (targetString.empty()) { // the replacement goes before every character and at the end
-		for (char c : this->original) {
-			result += replaceString;
-			result += c;
-		}
-		return result + replaceString;
-	}
-	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
-		for (; pre < pos; pre++) {
-			result += this->original[pre];
-		}
-		result += replaceString;
-		pre += targetString.size();
-		pos += targetString.length();
-	}
-	for (; pre < this->length(); pre++) {
-		result += this->original[pre];
-	}
-	return result;
-}
-
-String String::replaceFirst(const String &regex, const String &replacement) const {
-	// TODO (anhnt) fix this later, temporary, need Pattern
-	int firstRegexIndex = this->indexOf(regex);
-	if (firstRegexIndex < 0) {
-		return *this;
-	}
-	int stringWithFirstRegexLength = firstRegexIndex + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->subString(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
-}
-
-Array<String> String::split(const String &regex, int limit) const {
-	// TODO (anhnt) fix this later, temporary, need Pattern
-	Array<String> stringArrayNoLimit = this->split(regex);
-	if (limit == 1) {
-		return Array<String>{*this};
-	}
-	if (limit > stringArrayNoLimit.length || limit <= 0) {
-		return stringArrayNoLimit;
-	}
-	int i = 0;
-	Array<String> strings;
-	for (; i < limit - 1; i++) {
-		strings.push(stringArrayNoLimit[i]);
-	}
-	String stringSupport;
-	for (i = limit - 1; i < stringArrayNoLimit.length - 1; i++) {
-		stringSupport += stringArrayNoLimit[i] + regex;
-	}
-	stringSupport += stringArrayNoLimit[stringArrayNoLimit.length - 1];
-	strings.push(stringSupport);
-	return strings;
-}
-
-String String::print(const String &format, bool value) {
-	if (format.original == "%b") {
-		return (value ? "true" : "false");
-	}
-	if (format.original == "%B") {
-		return (value ? "TRUE" : "FALSE");
-	}
-	return "";
-}
-
-String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
-}
-
-String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
-}
-
-String String::print(const String &format, string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
-}
-
-String String::print(const String &format, const_string value) {
-	String result;
-	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
-	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
-		free(buffer);
-		buffer = (string) calloc(++length, sizeof(char));
-		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-	}
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	free(buffer);
-	return result;
-}
-
-String String::print(const String &format, Boolean value) {
-	return print(format, value.booleanValue());
-}
-
-String String::print(const String &format, Short value) {
-	return String::print(format, value.shortValue());
-}
-
-String String::print(const String &format, Integer value) {
-	return String::print(format, value.intValue());
-}
-
-String String::print(const String &format, Long value) {
-	return String::print(format, value.longValue());
-}
-
-String String::print(const String &format, Float value) {
-	return String::print(format, value.floatValue());
-}
-
-String String::print(const String &format, Double value) {
-	return String::print(format, value.doubleValue());
-}
-
-String String::print(const String &format, String value) {
-	return String::print(format, value.toCharPointer());
-}
-
-String String::format(const String &format) {
-	const String pattern = "%([[:digit:]]+)?([-#+0 ]*)?([[:digit:]]+)?(\\" \
-            ".[[:digit:]]+)?(l){0,2}([diuoxXfFeEgGaAcspnbB%])";
-	String result;
-	string inputStringPtr = format.toCharPointer();
-	int inputStringLength = format.getSize();
-	int inputStringOffset = 0;
-	int errorCode = 0;
-	regex_t regex;
-	errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
-	while (errorCode == 0 && inputStringOffset < format.getSize()) {
-		regmatch_t matchedResult[16] = {0}; // max 16 groups
-		errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
-		if (errorCode != 0) {
-			result += String(inputStringPtr, inputStringLength);
-			break;
-		}
-		int unmatchedStringLength = matchedResult[0].rm_so;
-		int matchedStringLength = matchedResult[0].rm_eo - matchedResult[0].rm_so;
-		if (unmatchedStringLength > 0) {
-			result += String(inputStringPtr, unmatchedStringLength);
-		}
-		if (matchedStringLength > 0) {
-			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
-			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
-				regfree(&regex);
-				throw InterruptedException("Missing arguments.");
-			} else {
-				result += "%";
-			}
-		}
-		inputStringPtr += matchedResult[0].rm_eo;
-		inputStringOffset += matchedResult[0].rm_eo;
-		inputStringLength -= matchedResult[0].rm_eo;
-	}
-	regfree(&regex);
-	return result;
-}
-
-String String::valueOf(const_string constStringValue) {
-	if (std::string(constStringValue).empty()) {
-		return (string) "";
-	}
-	return constStringValue;
-}
-
-String String::valueOf(const String &stringValue) {
-	return stringValue;
-}
+/**
+ * Copyright 2017-2020 Tiny Express Project. All rights reserved.
+ *
+ * Redistribution and use in source and binary forms, with or without
+ * modification, are permitted provided that the following conditions are met:
+ *
+ * Redistributions of source code must retain the above copyright
+ * notice, this list of conditions and the following disclaimer.
+ * Redistributions in binary form must reproduce the above
+ * copyright notice, this list of conditions and the following disclaimer
+ * in the documentation and/or other materials provided with the
+ * distribution.
+ *
+ * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ * "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ * LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR
+ * A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT
+ * OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+ * SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT
+ * LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE,
+ * DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY
+ * THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
+ * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
+ * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+ */
+
+#include "String.hpp"
+#include "../StringIndexOutOfBoundsException/StringIndexOutOfBoundsException.hpp"
+#include "../StringBuilder/StringBuilder.hpp"
+#include "../StringBuffer/StringBuffer.hpp"
+#include "../IllegalArgumentException/IllegalArgumentException.hpp"
+
+using namespace Java::Lang;
+
+std::wstring multiByteStringToWideString(const std::string &input) {
+    setlocale(LC_CTYPE, "");
+    try {
+        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
+        return convertToWstring.from_bytes(input.c_str());
+    } catch (std::exception &exception) {
+        std::wstring emptyString;
+        return emptyString;
+    }
+}
+
+std::string wideStringToMultiByteString(const std::wstring &input) {
+    setlocale(LC_CTYPE, "");
+    try {
+        std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
+        return convertToString.to_bytes(input.c_str());
+    } catch (std::exception &exception) {
+        std::string emptyString;
+        return emptyString;
+    }
+}
+
+std::string toUpper(const std::string &input) {
+	std::wstring wideString = multiByteStringToWideString(input);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towupper);
+	return wideStringToMultiByteString(wideString);
+}
+
+std::string toLower(const std::string &input) {
+    std::wstring wideString = multiByteStringToWideString(input);
+    std::transform(wideString.begin(), wideString.end(), wideString.begin(), towlower);
+    return wideStringToMultiByteString(wideString);
+}
+
+String::String() = default;
+
+String::~String() = default;
+
+String::String(string original, int length) {
+	this->original = std::string(original, original + (size_t) length);
+}
+
+String::String(const_string original, int length) {
+    this->original = std::string(original, original + (size_t) length);
+}
+
+String::String(const Array<char> &charArray) {
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = 0; i < charArray.length; i++) {
+		this->original += charArray[i];
+	}
+}
+
+String::String(const Array<byte> &byteArray) {
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = 0; i < byteArray.length; i++) {
+		this->original += byteArray[i];
+	}
+}
+
+String::String(const String &target) {
+	this->original = target.original;
+}
+
+String::String(const StringBuilder &stringBuilder) {
+	this->original = std::string(stringBuilder.toString().toCharPointer());
+}
+
+String::String(const StringBuffer &stringBuffer) {
+	this->original = std::string(stringBuffer.getValue().toCharPointer());
+}
+
+String::String(const Array<char> &array, int offset, int length) {
+	if (offset < 0) {
+		throw StringIndexOutOfBoundsException(offset);
+	}
+	if (length < 0) {
+		throw StringIndexOutOfBoundsException(length);
+	}
+	if (offset > array.length - length) {
+		throw StringIndexOutOfBoundsException(offset + length);
+	}
+
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = offset; i < offset + length; ++i) {
+		this->original.push_back(array[i]);
+	}
+}
+
+String::String(const Array<byte> &array, int offset, int length) {
+	if (offset < 0) {
+		throw StringIndexOutOfBoundsException(offset);
+	}
+	if (length < 0) {
+		throw StringIndexOutOfBoundsException(length);
+	}
+	if (offset > array.length - length) {
+		throw StringIndexOutOfBoundsException(offset + length);
+	}
+
+	this->original.clear();
+	this->original.shrink_to_fit();
+	int i;
+	for (i = offset; i < offset + length; i++) {
+		this->original.push_back((char) array[i]);
+	}
+}
+
+int String::getSize() const {
+	return this->original.size();
+}
+
+String String::clone() {
+	return this->original;
+}
+
+char String::charAt(int index) const {
+	if (index < 0 || index >= (int) this->original.size()) {
+		throw StringIndexOutOfBoundsException("String index out of range");
+	}
+	return (this->original[index]);
+}
+
+int String::compareTo(const String &anotherString) const {
+	return strcmp(this->original.c_str(), anotherString.original.c_str());
+}
+
+int String::compareToIgnoreCase(const String &anotherString) const {
+	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+}
+
+String String::concat(const String &target) const {
+    return this->original + target.original;
+}
+
+boolean String::contains(const CharSequence &charSequence) const {
+	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	if (found != std::string::npos) {
+		return true;
+	} else {
+		return false;
+	}
+}
+
+boolean String::contains(const String &input) const {
+	std::size_t found = this->original.find(input.toSTLString());
+	if (found != std::string::npos) {
+		return true;
+	} else {
+		return false;
+	}
+}
+
+
+Array<byte> String::getBytes() const {
+	Array<byte> bytes;
+	for (int i = 0; i < this->original.size(); ++i) {
+		bytes.push((byte) this->original.c_str()[i]);
+	}
+	return bytes;
+}
+
+String String::getStringFromIndex(int index) const {
+	if (index < 0 || index >= (int) this->original.size()) {
+		throw StringIndexOutOfBoundsException(index);
+	}
+	return this->original.substr(index);
+}
+
+boolean String::endsWith(const String &suffixString) const {
+	int suffixLength = suffixString.toString().length();
+	int targetLength = this->original.size();
+	if (targetLength < suffixLength) {
+		return false;
+	}
+	int i;
+	for (i = suffixLength - 1; i >= 0; i--) {
+		if (suffixString[i] != this->original[targetLength - suffixLength + i]) {
+			return false;
+		}
+	}
+	return true;
+}
+
+String String::fromCharArray(const Array<char> &charArray) {
+	return String(charArray);
+}
+
+int String::indexOf(int character) const {
+	std::size_t found = this->original.find((char) character);
+	if (found != std::string::npos) {
+		return (int) found;
+	}
+	return -1;
+}
+
+int String::indexOf(int character, int fromIndex) const {
+	if (fromIndex > (int) this->original.size()) {
+		return -1;
+	}
+	if (fromIndex < 0) {
+		return this->indexOf(character);
+	}
+
+	int index = 0;
+	for (index = fromIndex; index < this->original.size(); index++) {
+		if (this->original[index] == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::indexOf(const String &subString) const {
+	if (this->original.size() == 0 || subString == "") {
+		return -1;
+	}
+	std::size_t found = this->original.find(subString.original);
+	if (found != std::string::npos) {
+		return (int) found;
+	}
+	return -1;
+}
+
+int String::indexOf(const String &subString, int fromIndex) const {
+	if (fromIndex < 0) {
+		return this->indexOf(subString);
+	}
+	if (this->original.size() == 0 || subString == "") {
+		return -1;
+	}
+	if (fromIndex > (this->original.size() - 1) || (this->original.size()) < (subString.original.size())) {
+		return -1;
+	}
+	std::string stringFromIndex = (this)->original.substr(fromIndex);
+	std::size_t found = stringFromIndex.find(subString.original);
+	if (found != std::string::npos) {
+		return (int) (found + fromIndex);
+	}
+	return -1;
+}
+
+boolean String::isEmpty() const {
+	return (boolean) this->original.empty();
+}
+
+int String::lastIndexOf(int character) const {
+	int index = 0;
+	for (index = (int) this->original.size() - 1; index >= 0; index--) {
+		if (this->charAt(index) == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::lastIndexOf(int character, int fromIndex) const {
+	if (fromIndex < 0) {
+		return -1;
+	}
+	if (fromIndex >= (int) this->original.size()) {
+		return this->lastIndexOf(character);
+	}
+
+	int index = 0;
+	for (index = fromIndex; index >= 0; index--) {
+		if (this->charAt(index) == (char) character) {
+			return index;
+		}
+	}
+	return -1;
+}
+
+int String::lastIndexOf(const String &subString) const {
+	String reversedString = subString;
+	std::reverse(reversedString.original.begin(), reversedString.original.end());
+	std::string currentReversedString = this->original;
+	std::reverse(currentReversedString.begin(), currentReversedString.end());
+	std::size_t found = currentReversedString.find(reversedString.original);
+	if (found == std::string::npos) {
+		return -1;
+	}
+	return ((int) this->original.size() - (int) (found + subString.original.size()));
+}
+
+int String::lastIndexOf(const String &subString, int fromIndex) const {
+
+	if (fromIndex < 0) {
+		return -1;
+	}
+	if (fromIndex > this->original.size() - 1) {
+		return this->lastIndexOf(subString);
+	}
+	std::string thisStringReversed = this->original;
+	std::reverse(thisStringReversed.begin(), thisStringReversed.end());
+	int indexToCreatSubString = (int) this->original.size() - fromIndex - subString.length();
+	if (indexToCreatSubString > this->original.size()) {
+		return -1;
+	}
+	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
+	std::string reversedString = subString.toCharPointer();
+	std::reverse(reversedString.begin(), reversedString.end());
+	auto result = (int) subStringFromIndex.find(reversedString);
+	if (result == -1) {
+		return result;
+	}
+
+	// Re-calculate first character of str
+	result = fromIndex - result;
+	return result;
+}
+
+String String::replace(char oldChar, char newChar) const {
+	std::string copyString = (std::string) this->original;
+	for (int index = 0; index < this->original.size(); index++) {
+		if (this->original[index] == oldChar) {
+			copyString[index] = newChar;
+		}
+	}
+	return copyString;
+}
+
+String String::replaceAll(const String &regex, const String &replacement) const {
+	// TODO (anhnt) fix this later, temporary use replace, need Pattern
+	return replace(regex, replacement);
+}
+
+Array<String> String::split(const String &regex) const {
+	// TODO (anhnt) fix this later, temporary use replace, need Pattern
+	Array<String> strings;
+	if (this->original.c_str() == nullptr || regex.original.c_str() == nullptr) {
+		return strings;
+	}
+	size_t pos = 0;
+	size_t pre = 0;
+	std::string targetString = regex.original;
+	std::string result;
+	if (targetString.empty()) { // every character on its own
+		for (char c : this->original) {
+			strings.push(String(&c, 1));
+		}
+		return strings;
+	}
+	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
+
+		for (; pre < pos; pre++) {
+			result += this->original[pre];
+		}
+		strings.push(result);
+		pre += targetString.size();
+		pos += targetString.length();
+		result = "";
+	}
+	for (; pre < this->length(); pre++) {
+		result += this->original[pre];
+	}
+	strings.push(result);
+	return strings;
+}
+
+boolean String::startsWith(const String &prefix) const {
+	if (this->original.c_str() == nullptr || prefix.original.c_str() == nullptr) {
+		return false;
+	}
+	int lengthOriginal = (int) this->original.size();
+	int lengthPrefix = (int) prefix.original.size();
+	if (lengthOriginal < lengthPrefix) {
+		return false;
+	}
+	for (int index = 0; index < lengthPrefix; index++) {
+		if (this->original[index] != prefix.original[index]) {
+			return false;
+		}
+	}
+	return true;
+}
+
+boolean String::startsWith(String prefix, int thisOffset) const {
+	if (thisOffset < 0) {
+		return false;
+	}
+	int originalLength = (int) this->original.size();
+	int prefixLength = (int) prefix.original.size();
+	if (originalLength < prefixLength || thisOffset > (originalLength - prefixLength)) {
+		return false;
+	}
+
+	int firstIndex = 0, secondIndex = thisOffset;
+	for (; firstIndex < prefixLength; firstIndex++) {
+		if (prefix.original[firstIndex] != this->original[secondIndex]) {
+			return false;
+		}
+		secondIndex++;
+	}
+	return true;
+}
+
+Array<char> String::toCharArray() const {
+	Array<char> chars;
+	for (char c : this->original) {
+		chars.push(c);
+	}
+	return chars;
+}
+
+string String::toCharPointer() const {
+	return (string) this->original.c_str();
+}
+
+std::string String::toSTLString() const {
+    return this->original;
+}
+
+String String::toString() const {
+	return *this;
+}
+
+String String::toLowerCase() const {
+	return toLower(this->original);
+}
+
+String String::toUpperCase() const {
+	return toUpper(this->original);
+}
+
+String String::trim() const {
+	size_t first = this->original.find_first_not_of(' ');
+	if (std::string::npos == first) {
+		return "";
+	}
+	size_t last = this->original.find_last_not_of(' ');
+	return this->original.substr(first, (last - first + 1));
+}
+
+String String::valueOf(boolean target) {
+	if (target) {
+		return (string) "true";
+	}
+	return (string) "false";
+}
+
+String String::valueOf(char charValue) {
+	string pointerHolder;
+	if (charValue == '\0') {
+		pointerHolder = stringCopy("");
+	} else {
+		auto *result = (string) calloc(2, sizeof(char));
+		result[0] = charValue;
+		result[1] = '\0';
+		pointerHolder = result;
+	}
+	String output = pointerHolder;
+	free(pointerHolder);
+	return output;
+}
+
+String String::valueOf(string stringValue) {
+	if (stringValue == nullptr) {
+		return (string) "";
+	}
+	return stringValue;
+}
+
+String String::valueOf(short shortValue) {
+	String result = std::to_string(shortValue);
+	return result;
+}
+
+String String::valueOf(int intValue) {
+	String result = std::to_string(intValue);
+	return result;
+}
+
+String String::valueOf(long longValue) {
+	String result = std::to_string(longValue);
+	return result;
+}
+
+String String::valueOf(long long longValue) {
+    String result = std::to_string(longValue);
+    return result;
+}
+
+String String::valueOf(float floatValue) {
+	string pointerHolder;
+	asprintf(&pointerHolder, "%g", floatValue);
+	String result = pointerHolder;
+	free(pointerHolder);
+	return result;
+}
+
+String String::valueOf(double doubleValue) {
+	int precision = 15;
+	string pointerHolder = (string) calloc(1079, sizeof(char));
+	if (doubleValue == 0.0f && doubleValue < 0) {
+		sprintf(pointerHolder, "-%.*f", precision, doubleValue);
+	} else {
+		sprintf(pointerHolder, "%.*f", precision, doubleValue);
+	}
+	String result = pointerHolder;
+	free(pointerHolder);
+	return result;
+}
+
+String String::subString(int beginIndex) const {
+	return this->subString(beginIndex, (int) this->original.length());
+}
+
+String String::subString(int beginIndex, int endIndex) const {
+	if (this->original.c_str() == nullptr) {
+		return "";
+	}
+	int lengthTarget = this->length();
+	if (beginIndex > endIndex || beginIndex < 0 || beginIndex > lengthTarget || endIndex < 0 ||
+	    endIndex > lengthTarget) {
+		return "";
+	}
+	std::string result = this->original.substr(beginIndex, endIndex - beginIndex);
+	return result;
+}
+
+boolean String::contentEquals(const CharSequence &charSequence) const {
+	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+}
+
+String String::copyValueOf(const Array<char> &charArray) {
+	return String(charArray);
+}
+
+String String::copyValueOf(const Array<char> &charArray, int offset, int count) {
+	return String(charArray, offset, count);
+}
+
+boolean String::equals(const String &anotherString) const {
+    return this->original == anotherString.original;
+}
+
+boolean String::equalsIgnoreCase(const String &anotherString) const {
+	return this->compareToIgnoreCase(anotherString) == 0;
+}
+
+long String::hashCode() const {
+	int hashCode = 0; // not cached: operator=, operator+= change the characters
+	for (int i = 0; i < this->original.size(); i++) {
+		hashCode = 31 * hashCode + this->original[i];
+	}
+	this->hash = hashCode;
+	return hashCode;
+}
+
+boolean String::regionMatches(int thisOffset,
+                              const String &otherString, int otherOffset, int len) const {
+	return this->regionMatches(false, thisOffset, otherString, otherOffset, len);
+}
+
+boolean String::regionMatches(boolean ignoreCase, int thisOffset,
+                              const String &otherString, int otherOffset, int len) const {
+	String thisString = this->subString(thisOffset, thisOffset + len);
+	var subString = otherString.subString(otherOffset, otherOffset + len);
+	if (ignoreCase) {
+		return thisString.compareToIgnoreCase(subString) == 0;
+	}
+	return thisString.compareTo(subString) == 0;
+}
+
+void String::getChars(int sourceBegin, int sourceEnd, Array<char> &destination, int destinationBegin) const {
+	if (sourceBegin < 0) {
+		throw StringIndexOutOfBoundsException(sourceBegin);
+	}
+	if (sourceBegin > sourceEnd) {
+		throw StringIndexOutOfBoundsException(sourceEnd - sourceBegin);
+	}
+	if (sourceEnd > this->length()) {
+		throw StringIndexOutOfBoundsException(sourceEnd);
+	}
+	if (destinationBegin < 0) {
+		throw StringIndexOutOfBoundsException(destinationBegin);
+	}
+	if (destinationBegin > destination.length - (sourceEnd - sourceBegin)) {
+		throw StringIndexOutOfBoundsException(destinationBegin
+		                                      + (sourceEnd - sourceBegin));
+	}
+	int len = sourceEnd - sourceBegin;
+	int newDestinationSize = destinationBegin + len;
+	for (int index = 0; index < newDestinationSize; index++) {
+		if (index >= destinationBegin && index < destinationBegin + len) {
+			destination[index] = this->charAt(sourceBegin);
+			sourceBegin++;
+			continue;
+		}
+		destination[index] = destination[index];
+	}
+}
+
+String String::replace(const CharSequence &target, const CharSequence &replacement) const {
+	if ((string) target.toString().toCharPointer() == nullptr ||
+	    (string) replacement.toString().toCharPointer() == nullptr ||
+	    (string) this->toString().toCharPointer() == nullptr) {
+		return "";
+	}
+	size_t pos = 0;
+	size_t pre = 0;
+	std::string targetString = target.toString().original;
+	std::string replaceString = replacement.toString().original;
+	std::string result;
+	if (targetString.empty()) { // the replacement goes before every character and at the end
+		for (char c : this->original) {
+			result += replaceString;
+			result += c;
+		}
+		return result + replaceString;
+	}
+	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
+		for (; pre < pos; pre++) {
+			result += this->original[pre];
+		}
+		result += replaceString;
+		pre += targetString.size();
+		pos += targetString.length();
+	}
+	for (; pre < this->length(); pre++) {
+		result += this->original[pre];
+	}
+	return result;
+}
+
+String String::replaceFirst(const String &regex, const String &replacement) const {
+	// TODO (anhnt) fix this later, temporary, need Pattern
+	int firstRegexIndex = this->indexOf(regex);
+	if (firstRegexIndex < 0) {
+		return *this;
+	}
+	int stringWithFirstRegexLength = firstRegexIndex + regex.length();
+	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
+	String remainString = this->subString(stringWithFirstRegexLength);
+	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
+	return stringWithFirstRegex + remainString;
+}
+
+Array<String> String::split(const String &regex, int limit) const {
+	// TODO (anhnt) fix this later, temporary, need Pattern
+	Array<String> stringArrayNoLimit = this->split(regex);
+	if (limit == 1) {
+		return Array<String>{*this};
+	}
+	if (limit > stringArrayNoLimit.length || limit <= 0) {
+		return stringArrayNoLimit;
+	}
+	int i = 0;
+	Array<String> strings;
+	for (; i < limit - 1; i++) {
+		strings.push(stringArrayNoLimit[i]);
+	}
+	String stringSupport;
+	for (i = limit - 1; i < stringArrayNoLimit.length - 1; i++) {
+		stringSupport += stringArrayNoLimit[i] + regex;
+	}
+	stringSupport += stringArrayNoLimit[stringArrayNoLimit.length - 1];
+	strings.push(stringSupport);
+	return strings;
+}
+
+String String::print(const String &format, bool value) {
+	if (format.original == "%b") {
+		return (value ? "true" : "false");
+	}
+	if (format.original == "%B") {
+		return (value ? "TRUE" : "FALSE");
+	}
+	return "";
+}
+
+String String::print(const String &format, short value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, int value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, long value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, long long value) {
+    String result;
+    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+    if (length > 0) {
+        result = String(buffer, length);
+    }
+    return result;
+}
+
+String String::print(const String &format, unsigned short value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, unsigned int value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, unsigned long value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, double value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, float value) {
+	String result;
+	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
+	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	return result;
+}
+
+String String::print(const String &format, string value) {
+	String result;
+	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
+	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
+	if (length > DEFAULT_BUFFER_LENGTH) {
+		free(buffer);
+		buffer = (string) calloc(++length, sizeof(char));
+		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
+	}
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	free(buffer);
+	return result;
+}
+
+String String::print(const String &format, const_string value) {
+	String result;
+	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
+	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
+	if (length > DEFAULT_BUFFER_LENGTH) {
+		free(buffer);
+		buffer = (string) calloc(++length, sizeof(char));
+		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
+	}
+	if (length > 0) {
+		result = String(buffer, length);
+	}
+	free(buffer);
+	return result;
+}
+
+String String::print(const String &format, Boolean value) {
+	return print(format, value.booleanValue());
+}
+
+String String::print(const String &format, Short value) {
+	return String::print(format, value.shortValue());
+}
+
+String String::print(const String &format, Integer value) {
+	return String::print(format, value.intValue());
+}
+
+String String::print(const String &format, Long value) {
+	return String::print(format, value.longValue());
+}
+
+String String::print(const String &format, Float value) {
+	return String::print(format, value.floatValue());
+}
+
+String String::print(const String &format, Double value) {
+	return String::print(format, value.doubleValue());
+}
+
+String String::print(const String &format, String value) {
+	return String::print(format, value.toCharPointer());
+}
+
+String String::format(const String &format) {
+	const String pattern = "%([[:digit:]]+)?([-#+0 ]*)?([[:digit:]]+)?(\\" \
+            ".[[:digit:]]+)?(l){0,2}([diuoxXfFeEgGaAcspnbB%])";
+	String result;
+	string inputStringPtr = format.toCharPointer();
+	int inputStringLength = format.getSize();
+	int inputStringOffset = 0;
+	int errorCode = 0;
+	regex_t regex;
+	errorCode = regcomp(&regex, pattern.toCharPointer(), REG_EXTENDED);
+	while (errorCode == 0 && inputStringOffset < format.getSize()) {
+		regmatch_t matchedResult[16] = {0}; // max 16 groups
+		errorCode = regexec(&regex, inputStringPtr, 16, matchedResult, 0);
+		if (errorCode != 0) {
+			result += String(inputStringPtr, inputStringLength);
+			break;
+		}
+		int unmatchedStringLength = matchedResult[0].rm_so;
+		int matchedStringLength = matchedResult[0].rm_eo - matchedResult[0].rm_so;
+		if (unmatchedStringLength > 0) {
+			result += String(inputStringPtr, unmatchedStringLength);
+		}
+		if (matchedStringLength > 0) {
+			String matchedString(inputStringPtr + unmatchedStringLength, matchedStringLength);
+			if (matchedString.charAt(matchedString.getSize() - 1) != '%') {
+				regfree(&regex);
+				throw InterruptedException("Missing arguments.");
+			} else {
+				result += "%";
+			}
+		}
+		inputStringPtr += matchedResult[0].rm_eo;
+		inputStringOffset += matchedResult[0].rm_eo;
+		inputStringLength -= matchedResult[0].rm_eo;
+	}
+	regfree(&regex);
+	return result;
+}
+
+String String::valueOf(const_string constStringValue) {
+	if (std::string(constStringValue).empty()) {
+		return (string) "";
+	}
+	return constStringValue;
+}
+
+String String::valueOf(const String &stringValue) {
+	return stringValue;
+}
-- 
2.43.0


From 03da091eadc118e47ae1e2c2bb9348fcb0a3926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 26/40] fix: ArrayList::add(index, element) lost an element
 added at the end and was undefined on an empty list

---
 library/Java/Util/ArrayList/ArrayList.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..4dcd4c2 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,8 +154,10 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
-					return;
+				if (index < 0 || index > (int) this->original.size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
 				}
 				this->original.insert(this->original.begin() + index, element);
 			}
-- 
2.43.0


From 4f01e6e9b33ef8940962204a379a7744f8f1815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 27/40] fix: Vector copies and initializer lists left
 capacityIncrement uninitialised

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..ec7d3a3 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -47,7 +47,7 @@ namespace Java {
         {
         protected:
             std::vector<E> original;
-            int capacityIncrement;
+            int capacityIncrement = 0;
 
         public:
             /**
-- 
2.43.0


From 7278d9c86eac99839a029a206e3be744a03b8209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 28/40] fix: Vector::lastIndexOf(element) and Stack::search
 must return -1 on an empty vector

---
 library/Java/Util/Vector/Vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index ec7d3a3..f06e9c6 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -442,6 +442,9 @@ namespace Java {
              */
             int lastIndexOf(const E &element) const {
                 int maxIndex = (int) this->original.size() - 1;
+                if (maxIndex < 0) {
+                    return -1;
+                }
                 return this->lastIndexOf(element, maxIndex);
             }
 
-- 
2.43.0


From fc5dec928de32432880db00e7fc68e78a8f1e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 29/40] fix: BitSet::flip(from, to) flipped a whole extra word
 when toIndex was a multiple of 64

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..b40b4df 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -333,7 +333,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From 6b219f130ac13467b9a91f1212157486f75c5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 30/40] fix: BitSet::intersects read one word past the words in
 use

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index b40b4df..6d203db 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From 4903020e1435659079630c0a77b0b40cdbf09adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 31/40] fix: BitSet assignment after toString() freed the text
 twice

---
 library/Java/Util/BitSet/BitSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 6d203db..aa4721f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,6 +114,7 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
     }
 }
 
-- 
2.43.0


From a68dc317527a5c2370e44e55534a16d911639635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 32/40] fix: StringBuilder::indexOf missed occurrences and read
 past the pattern (KMP table was built from the wrong string)

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 28 +------------------
 .../Java/Lang/StringBuilder/StringBuilder.hpp |  2 +-
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..ceff63b 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -734,33 +734,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 		return startIndex;
 	}
 	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
-	if (nextTable == nullptr) {
-		return -1;
-	}
-	
-	int position = 0;
-	while (startIndex + position < lengthOfTarget) {
-		if (pattern[ position ] == target[ startIndex + position ]) {
-			if (position == lengthOfPattern - 1) {
-				free(nextTable);
-				return startIndex;
-			}
-			position = position + 1;
-		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex + 1;
-				position = 0;
-			}
-		}
-	}
-	
-	free(nextTable);
-	return -1;
+	return target.indexOf(pattern, startIndex);
 }
 
 int StringBuilder::stringMatchesReverse(const String target, const String pattern, int startIndex) const {
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..4ca455e 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -820,7 +820,7 @@ namespace Java {
                         
                         /**
 						 * This method returns the index within this string of the first occurrence of the specified substring,
-						 * starting at the specified index by using Knuth-Morris-Pratt algorithm.
+						 * starting at the specified index.
 						 *
 						 * @param target
 						 * @param pattern
-- 
2.43.0


From e50da3917a82786c8fee3d1c1dc050f9499328e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 33/40] fix: StringBuilder::lastIndexOf missed occurrences,
 ignored fromIndex and read outside both strings

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 75 ++-----------------
 .../Java/Lang/StringBuilder/StringBuilder.hpp | 11 +--
 2 files changed, 7 insertions(+), 79 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index ceff63b..73aee8f 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -674,46 +674,6 @@ void StringBuilder::trimToSize() {
 	}
 }
 
-int *StringBuilder::initializeNextTable(const String pattern) const {
-	int lengthOfPattern = pattern.length();
-	if (lengthOfPattern == 0) {
-		return nullptr;
-	}
-	
-	int *nextTable = (int *) calloc((size_t) lengthOfPattern, sizeof(int));
-	
-	if (nextTable == nullptr) {
-		return nullptr;
-	}
-	
-	nextTable[ 0 ] = -1;
-	if (lengthOfPattern == 1) {
-		return nextTable;
-	}
-	nextTable[ 1 ] = 0;
-	if (lengthOfPattern == 2) {
-		return nextTable;
-	}
-	
-	int position = 2;
-	int lengthOfTheLongestPrefixSuffix = 0;
-	
-	while (position < lengthOfPattern) {
-		if (pattern[ position - 1 ] == pattern[ lengthOfTheLongestPrefixSuffix ]) {
-			lengthOfTheLongestPrefixSuffix = lengthOfTheLongestPrefixSuffix + 1;
-			nextTable[ position ] = lengthOfTheLongestPrefixSuffix;
-			position = position + 1;
-		} else if (lengthOfTheLongestPrefixSuffix > 0) {
-			lengthOfTheLongestPrefixSuffix = nextTable[ lengthOfTheLongestPrefixSuffix ];
-		} else {
-			nextTable[ position ] = 0;
-			position = position + 1;
-		}
-	}
-	
-	return nextTable;
-}
-
 int StringBuilder::stringMatches(const String target, const String pattern, int startIndex) const {
 	int lengthOfPattern = pattern.length();
 	int lengthOfTarget = target.length();
@@ -745,9 +705,9 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
+	// The occurrence has to end at or before startIndex.
+	if (startIndex > lengthOfTarget) {
+		startIndex = lengthOfTarget;
 	}
 	
 	// Empty string always matches.
@@ -755,33 +715,10 @@ int StringBuilder::stringMatchesReverse(const String target, const String patter
 		return startIndex;
 	}
 	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
-	if (nextTable == nullptr) {
-		return -1;
-	}
-	
-	int position = 0;
-	while (startIndex - position >= 0) {
-		if (pattern[ lengthOfPattern - position - 1 ] == target[ startIndex - position ]) {
-			if (position == lengthOfPattern - 1) {
-				free(nextTable);
-				return startIndex - lengthOfPattern + 1;
-			}
-			position = position + 1;
-		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex - 1;
-				position = 0;
-			}
-		}
+	if (startIndex < lengthOfTarget) {
+		return target.subString(0, startIndex + 1).lastIndexOf(pattern);
 	}
-	
-	free(nextTable);
-	return -1;
+	return target.lastIndexOf(pattern);
 }
 
 void StringBuilder::reverseAllValidSurrogatePairs() {
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 4ca455e..4cbbc4f 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -809,15 +809,6 @@ namespace Java {
                 
                 private:
                         
-                        /**
-						 * This method builds a "Next Table" that depending on a specified 'pattern'.
-						 * "Next Table" is a friendly name of "partial match" table (also known as "failure function") in Knuth-Morris-Pratt algorithm.
-						 *
-						 * @param pattern
-						 * @return int *
-						 */
-                        int *initializeNextTable(const String pattern) const;
-                        
                         /**
 						 * This method returns the index within this string of the first occurrence of the specified substring,
 						 * starting at the specified index.
@@ -831,7 +822,7 @@ namespace Java {
                         
                         /**
 						 * This method returns the index within this string of the last occurrence of the specified substring,
-						 * searching backward starting at the specified index by using Knuth-Morris-Pratt algorithm.
+						 * searching backward starting at the specified index.
 						 *
 						 * @param target
 						 * @param pattern
-- 
2.43.0


From 117a56442e33496e14317d5f12c9fbb0362499dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 34/40] fix: StringBuilder::insert(index, array, offset,
 length) range check overflowed

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 73aee8f..dac8cc2 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -380,10 +380,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<char> &target, int o
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || length > target.length - offset) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
@@ -408,10 +408,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<Character> &target,
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || length > target.length - offset) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
-- 
2.43.0


From dfc27e0b243b6eda6ceb183de1c4b1ba3870b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:04 +0000
Subject: [PATCH 35/40] fix: assigning a StringBuilder shared its memory, which
 was then freed twice

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 13 +++++++++++++
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index dac8cc2..bb5b8c2 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,19 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		this->setLength(0);
+		this->ensureCapacity(target.currentLength);
+		int index;
+		for (index = 0; index < target.currentLength; index++) {
+			this->original[ index ] = target.original[ index ];
+		}
+		this->currentLength = target.currentLength;
+	}
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 4cbbc4f..eab921c 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,14 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+                        
+                        /**
+						 * Makes this string builder contain the same characters as the specified StringBuilder.
+						 *
+						 * @param target
+						 * @return StringBuilder
+						 */
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From e7a71cfc37ab6217a50204ff3c022475812ca073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 36/40] fix: Arrays::binarySearch missed elements when the
 range shrank to one element at once

---
 library/Java/Util/Arrays/Arrays.hpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..aba717d 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -431,17 +431,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
@@ -470,17 +463,10 @@ namespace Java {
                     } else {
                         left = mid + 1;
                     }
+                }
 
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
+                if (array[left] == key) { /// Get very first left postition in array
+                    return left;
                 }
 
                 return -1;
-- 
2.43.0


From 48605070aaf25042be39fcf4a0b248a8ebb68aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 37/40] fix: Arrays::binarySearch(array, fromIndex, toIndex,
 key) ignored fromIndex

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index aba717d..8962098 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
-- 
2.43.0


From 21156cea5b4ac7731a481f42c8fcce273c3d8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 38/40] fix: Arrays::copyOfRange could not copy the last
 element

---
 library/Java/Util/Arrays/Arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 8962098..ceab14a 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -590,7 +590,7 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
+                    || toIndex > original.length) {
                     return result;
                 }
 
-- 
2.43.0


From 71f4c0e2a4eb248224ae9e804bcbef44e34462ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 39/40] fix: Random::nextBytes appended to the array instead of
 filling it

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..61fe747 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -191,7 +191,7 @@ void Random::nextBytes(Array<byte> *bytes) {
 		int randomNumber = nextInt();
 		//TODO change to BYTE::SIZE
 		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		(*bytes)[ index ] = (byte) randomNumber;
 	}
 }
 
-- 
2.43.0


From adda0f0b16f6034c152de67583a1aa5d938f248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 40/40] fix: Random::nextString wrote one character past its
 buffer

---
 library/Java/Util/Random/Random.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index 61fe747..a204588 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -265,7 +265,7 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	char charArray[length + 1];
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
-- 
2.43.0

