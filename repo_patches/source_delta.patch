From 7ba1cddd6d1fc7f958ce3e06dc4e6db4ae724a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 01/15] fix: saturate 64-bit integers instead of overflowing
 the cast

The limits of 64-bit integer types round up when converted to double, so
clamping to them before the cast still allowed out of range values.
---
 lib/src/VertexValue.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index 3d9fd59..cce584e 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -220,8 +220,13 @@ inline void packSNormValues(T* data, const double* values, unsigned int count)
 template <typename T>
 inline T packInteger(double value, T minVal, T maxVal)
 {
-	return static_cast<T>(std::round(glm::clamp(value, static_cast<double>(minVal),
-		static_cast<double>(maxVal))));
+	// Clamp after rounding since the limits of 64-bit types can't all be represented by a double.
+	double rounded = std::round(value);
+	if (rounded <= static_cast<double>(minVal))
+		return minVal;
+	if (rounded >= static_cast<double>(maxVal))
+		return maxVal;
+	return static_cast<T>(rounded);
 }
 
 inline void packIntegers(std::uint8_t* data, const double* values, unsigned int count)
-- 
2.43.0


From cd799ddb0bdcca89045a02e1408d729e17e23dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 02/15] fix: ignore NaN values when expanding bounds

std::min() and std::max() return the first argument when the values are
unordered, so a NaN value replaced the bounds seen so far.
---
 lib/include/VFC/VertexValue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/VFC/VertexValue.h b/lib/include/VFC/VertexValue.h
index cca79cc..8b35ee1 100644
--- a/lib/include/VFC/VertexValue.h
+++ b/lib/include/VFC/VertexValue.h
@@ -117,8 +117,9 @@ public:
 	{
 		for (unsigned int i = 0; i < count; ++i)
 		{
-			minVal.m_values[i] = std::min(m_values[i], minVal.m_values[i]);
-			maxVal.m_values[i] = std::max(m_values[i], maxVal.m_values[i]);
+			// Order of parameters is important to ignore NaN values.
+			minVal.m_values[i] = std::min(minVal.m_values[i], m_values[i]);
+			maxVal.m_values[i] = std::max(maxVal.m_values[i], m_values[i]);
 		}
 	}
 
-- 
2.43.0


From 429a8af34628c9eff6dfbd5e58b4e33a99706c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 03/15] fix: compute element bounds from the element rather
 than the vertex start

---
 lib/src/Converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 75f4e0a..8120aed 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -688,7 +688,8 @@ bool Converter::convert()
 				}
 
 				VertexValue value;
-				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride();
+				auto offset = static_cast<std::size_t>(indexValue)*stream.vertexFormat.stride() +
+					element.offset;
 				value.fromData(stream.vertexData + offset, element.layout, element.type);
 				value.expandBounds(elementRef.minVal, elementRef.maxVal);
 			}
-- 
2.43.0


From 50472bef225f63f426ea9b4b95554b1a784a3e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 04/15] fix: remove duplicate copied vertices from the vertex
 data

The vector of streams was resized rather than the data of the stream when
a vertex copied for a new index buffer was already present, corrupting the
vertex data. Also avoid inserting a range of a vector into itself.
---
 lib/src/Converter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 8120aed..3385e58 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -233,8 +233,10 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 	{
 		std::size_t stride = vertexFormat[i].stride();
 		std::size_t offset = index*stride;
-		vertices[i].insert(vertices[i].end(), vertices[i].begin() + offset,
-			vertices[i].begin() + offset + stride);
+		// Can't insert a range from the same vector.
+		std::size_t prevSize = vertices[i].size();
+		vertices[i].resize(prevSize + stride);
+		std::memcpy(vertices[i].data() + prevSize, vertices[i].data() + offset, stride);
 	}
 	VertexRef ref(vertices, vertexFormat, newIndex);
 	auto insertPair = vertexSet.insert(ref);
@@ -243,7 +245,7 @@ std::uint32_t addVertex(std::vector<std::vector<std::uint8_t>>& vertices,
 		assert(insertPair.first->index < ref.index);
 		// Remove the added vertex data.
 		for (std::size_t i = 0; i < vertices.size(); ++i)
-			vertices.resize(vertices[i].size() - vertexFormat[i].stride());
+			vertices[i].resize(vertices[i].size() - vertexFormat[i].stride());
 		return insertPair.first->index;
 	}
 
-- 
2.43.0


From 04f8f3318cce5e995603e5e74449477bb996e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 05/15] fix: reject streams with a different count after an
 empty stream

An empty first stream was treated as if no stream was added yet, so a later
stream could set a count that reads out of bounds of the first stream's data.
---
 lib/src/Converter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 3385e58..2dd00af 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -518,7 +518,7 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	}
 
 	std::uint32_t finalIndexCount = hasIndices ? indexCount : vertexCount;
-	if (m_indexCount > 0 && m_indexCount != finalIndexCount)
+	if ((m_indexCount > 0 || !m_vertexStreams.empty()) && m_indexCount != finalIndexCount)
 	{
 		if (hasIndices)
 			logError("Mismatch between number of indices for vertex streams.");
@@ -560,10 +560,11 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 		}
 	}
 
-	m_indexCount = finalIndexCount;
 	if (duplicateElements)
 		return false;
-	else if (!hasElements)
+
+	m_indexCount = finalIndexCount;
+	if (!hasElements)
 		return true;
 
 	auto streamIndex = static_cast<std::uint32_t>(m_vertexStreams.size());
-- 
2.43.0


From e0d37588e2df733f24f537c90e4494e1e0f47689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:00 +0000
Subject: [PATCH 06/15] fix: refuse vertex streams for invalid converters

The patch size may be zero for an invalid converter, which was used as a
divisor when checking the number of vertices.
---
 lib/src/Converter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 2dd00af..0ca7282 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -510,6 +510,12 @@ bool Converter::addVertexStream(VertexFormat vertexFormat, const void* vertexDat
 	std::uint32_t vertexCount, IndexType indexType, const void* indexData,
 	std::uint32_t indexCount)
 {
+	if (!isValid())
+	{
+		logError("Converter is invalid.");
+		return false;
+	}
+
 	bool hasIndices = indexType != IndexType::NoIndices;
 	if (!vertexData || (hasIndices && !indexData))
 	{
-- 
2.43.0


From de72f60b210c74a70a96c7de01720a4d9d962f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:24 +0000
Subject: [PATCH 07/15] fix: pack and unpack small floats without wrapping or
 clamping

The GLM functions don't support values below the smallest normal value or
above the largest value for 11 and 10 bit floats, mix up bits between the
components when unpacking, and clamp shared exponent floats to 32768 rather
than 65408. Negative, out of range, and NaN values are handled explicitly.
---
 lib/src/VertexValue.cpp | 118 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 104 insertions(+), 14 deletions(-)

diff --git a/lib/src/VertexValue.cpp b/lib/src/VertexValue.cpp
index cce584e..58bc037 100644
--- a/lib/src/VertexValue.cpp
+++ b/lib/src/VertexValue.cpp
@@ -18,6 +18,7 @@
 
 #include "HalfFloat.h"
 #include <VFC/VertexFormat.h>
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <cstdint>
@@ -289,6 +290,105 @@ inline void packHalfFloatValues(std::uint16_t* data, const double* values, unsig
 	std::memcpy(data, alignedData, sizeof(std::uint16_t)*count);
 }
 
+// Unsigned floats with a 5 bit exponent and no sign bit.
+inline double unpackUFloat(std::uint32_t data, unsigned int mantissaBits)
+{
+	std::uint32_t mantissaSize = 1U << mantissaBits;
+	std::uint32_t mantissa = data & (mantissaSize - 1);
+	auto exponent = static_cast<int>((data >> mantissaBits) & 0x1F);
+	if (exponent == 0x1F)
+	{
+		return mantissa == 0 ? std::numeric_limits<double>::infinity() :
+			std::numeric_limits<double>::quiet_NaN();
+	}
+
+	// The mantissa has an implicit 1 except for denormal values.
+	if (exponent == 0)
+		exponent = 1;
+	else
+		mantissa |= mantissaSize;
+	return std::ldexp(static_cast<double>(mantissa),
+		exponent - 15 - static_cast<int>(mantissaBits));
+}
+
+inline std::uint32_t packUFloat(double value, unsigned int mantissaBits)
+{
+	const std::uint32_t infinity = 0x1FU << mantissaBits;
+	if (std::isnan(value))
+		return infinity | 1U;
+	if (value <= 0)
+		return 0;
+	if (std::isinf(value))
+		return infinity;
+	// Avoid overflow when finding the exponent.
+	if (value >= 65536.0)
+		return infinity - 1;
+
+	int exponent;
+	std::frexp(value, &exponent);
+	// Denormal values share the exponent of the smallest normal values.
+	exponent = std::max(exponent + 14, 1);
+	auto mantissa = static_cast<std::uint32_t>(
+		std::round(std::ldexp(value, static_cast<int>(mantissaBits) + 15 - exponent)));
+	// Normal values have the implicit 1 for the mantissa that increases the exponent by 1. This
+	// also handles when rounding carries over to the next exponent.
+	std::uint32_t data = (static_cast<std::uint32_t>(exponent - 1) << mantissaBits) + mantissa;
+	return std::min(data, infinity - 1);
+}
+
+inline void unpack10_11_11UFloat(double* values, std::uint32_t data)
+{
+	values[0] = unpackUFloat(data, 6);
+	values[1] = unpackUFloat(data >> 11, 6);
+	values[2] = unpackUFloat(data >> 22, 5);
+}
+
+inline std::uint32_t pack10_11_11UFloat(const double* values)
+{
+	return packUFloat(values[0], 6) | (packUFloat(values[1], 6) << 11) |
+		(packUFloat(values[2], 5) << 22);
+}
+
+// Unsigned floats with 9 bit mantissas without an implicit 1 and a shared 5 bit exponent.
+inline void unpackSharedExponentUFloat(double* values, std::uint32_t data)
+{
+	int exponent = static_cast<int>(data >> 27) - 15 - 9;
+	for (unsigned int i = 0; i < 3; ++i)
+		values[i] = std::ldexp(static_cast<double>((data >> 9*i) & 0x1FF), exponent);
+}
+
+inline std::uint32_t packSharedExponentUFloat(const double* values)
+{
+	constexpr double maxSharedValue = 65408.0;
+	double clampedValues[3];
+	double maxValue = 0.0;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		// Order of parameters is important to have NaN values become 0.
+		clampedValues[i] = std::min(std::max(0.0, values[i]), maxSharedValue);
+		maxValue = std::max(maxValue, clampedValues[i]);
+	}
+
+	int exponent = 0;
+	if (maxValue > 0)
+	{
+		std::frexp(maxValue, &exponent);
+		exponent = std::max(exponent + 15, 0);
+		// Rounding may carry over to the next exponent.
+		if (std::round(std::ldexp(maxValue, 15 + 9 - exponent)) > 511)
+			++exponent;
+	}
+
+	std::uint32_t data = static_cast<std::uint32_t>(exponent) << 27;
+	for (unsigned int i = 0; i < 3; ++i)
+	{
+		auto mantissa = static_cast<std::uint32_t>(
+			std::round(std::ldexp(clampedValues[i], 15 + 9 - exponent)));
+		data |= mantissa << 9*i;
+	}
+	return data;
+}
+
 } // namespace
 
 constexpr unsigned int VertexValue::count;
@@ -750,10 +850,7 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF2x11_1x10(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				unpack10_11_11UFloat(m_values, dataValue);
 				m_values[3] = 1;
 				return true;
 			}
@@ -765,10 +862,7 @@ bool VertexValue::fromData(const void* data, ElementLayout layout, ElementType t
 				std::uint32_t dataValue;
 				std::memcpy(&dataValue, reinterpret_cast<const std::uint32_t*>(data),
 					sizeof(std::uint32_t));
-				glm::vec3 value = glm::unpackF3x9_E1x5(dataValue);
-				m_values[0] = value[0];
-				m_values[1] = value[1];
-				m_values[2] = value[2];
+				unpackSharedExponentUFloat(m_values, dataValue);
 				m_values[3] = 1;
 				return true;
 			}
@@ -1210,9 +1304,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::Z10Y11X11_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF2x11_1x10(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = pack10_11_11UFloat(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
@@ -1222,9 +1314,7 @@ bool VertexValue::toData(void* outData, ElementLayout layout, ElementType type)
 		case ElementLayout::E5Z9Y9X9_UFloat:
 			if (type == ElementType::Float)
 			{
-				std::uint32_t outDataValue =
-					glm::packF3x9_E1x5(glm::vec3(std::max(m_values[0], 0.0),
-						std::max(m_values[1], 0.0), std::max(m_values[2], 0.0)));
+				std::uint32_t outDataValue = packSharedExponentUFloat(m_values);
 				std::memcpy(reinterpret_cast<std::uint32_t*>(outData), &outDataValue,
 					sizeof(std::uint32_t));
 				return true;
-- 
2.43.0


From a9ade860162e1e8deb81fa96609910242b37b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 08/15] fix: don't keep pointers to moved strings for the index
 data

Moving a string that uses the small string buffer invalidates the previous
pointer, and the vector holding the strings could be re-allocated.
---
 tool/main.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index e01ec50..f07ed99 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -320,7 +320,7 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 	std::vector<IndexFileData> indexFileData;
 	std::vector<std::string> indexStrings;
 	indexFileData.reserve(converter.getIndices().size());
-	indexStrings.reserve(indexFileData.size());
+	indexStrings.reserve(converter.getIndices().size());
 	if (outputDir.empty())
 	{
 		for (const vfc::IndexData& indexData : converter.getIndices())
@@ -329,9 +329,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				static_cast<std::size_t>(indexData.count)*vfc::indexSize(indexData.type);
 			std::string encodedData = "base64:";
 			encodedData.append(base64::encode(indexData.data, indexSize));
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, encodedData.c_str()});
 			indexStrings.push_back(std::move(encodedData));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 	else
@@ -352,9 +352,9 @@ std::string writeOutput(const vfc::Converter& converter, const std::string& outp
 				return "";
 			}
 
-			indexFileData.push_back(
-				IndexFileData{indexData.count, indexData.baseVertex, indexDataPath.c_str()});
 			indexStrings.push_back(std::move(indexDataPath));
+			indexFileData.push_back(IndexFileData{indexData.count, indexData.baseVertex,
+				indexStrings.back().c_str()});
 		}
 	}
 
-- 
2.43.0


From 4b5ce006ccc3e41caf81c6fe4b526f92c8deed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 09/15] fix: detect failures when writing buffered data of
 output files

---
 tool/main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/main.cpp b/tool/main.cpp
index f07ed99..25d3876 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -269,6 +269,8 @@ bool writeFile(const void* data, std::size_t size, const std::string& fileName)
 		return false;
 
 	stream.write(reinterpret_cast<const char*>(data), size);
+	// Closing writes the remaining buffered data, which may also fail.
+	stream.close();
 	return stream.good();
 }
 
-- 
2.43.0


From 93dcc7227b8858109697cdc345c2bebd45186a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 10/15] fix: report errors when reading data files

Iterators over the stream buffer don't update the state of the stream, and
throw an exception for read errors such as reading a directory.
---
 tool/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 25d3876..3c38ce1 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -185,8 +185,14 @@ bool loadData(std::vector<std::uint8_t>& outData,  const std::string& configFile
 	std::ifstream stream(dataFilePath, std::ios_base::in | std::ios_base::binary);
 	if (stream.is_open())
 	{
-		outData.insert(outData.end(), std::istreambuf_iterator<char>(stream), {});
-		if (stream.good() || stream.eof())
+		// Read through the stream rather than an iterator to detect errors.
+		char buffer[4096];
+		do
+		{
+			stream.read(buffer, sizeof(buffer));
+			outData.insert(outData.end(), buffer, buffer + stream.gcount());
+		} while (stream.good());
+		if (stream.eof() && !stream.bad())
 			return true;
 	}
 
-- 
2.43.0


From c5ab1ddd2b13b9532d13c851c0f06f7801b107f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 11/15] fix: write non-finite bounds as null

The JSON writer stops when encountering infinity or NaN, resulting in a
truncated result.
---
 tool/ResultFile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tool/ResultFile.cpp b/tool/ResultFile.cpp
index 22b6388..508bc8a 100644
--- a/tool/ResultFile.cpp
+++ b/tool/ResultFile.cpp
@@ -18,6 +18,15 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 #include <cassert>
+#include <cmath>
+
+static rapidjson::Value boundsValue(double value)
+{
+	// JSON can't represent infinity or NaN.
+	if (!std::isfinite(value))
+		return rapidjson::Value();
+	return rapidjson::Value(value);
+}
 
 std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 	const std::vector<std::vector<Bounds>>& bounds, const std::vector<std::string>& vertexData,
@@ -61,8 +70,8 @@ std::string resultFile(const std::vector<vfc::VertexFormat>& vertexFormat,
 			maxBoundsArray.Reserve(4, document.GetAllocator());
 			for (unsigned int k = 0; k < 4; ++k)
 			{
-				minBoundsArray.PushBack(curBounds[j].min[k], document.GetAllocator());
-				maxBoundsArray.PushBack(curBounds[j].max[k], document.GetAllocator());
+				minBoundsArray.PushBack(boundsValue(curBounds[j].min[k]), document.GetAllocator());
+				maxBoundsArray.PushBack(boundsValue(curBounds[j].max[k]), document.GetAllocator());
 			}
 			elementObject.AddMember("minValue", minBoundsArray, document.GetAllocator());
 			elementObject.AddMember("maxValue", maxBoundsArray, document.GetAllocator());
-- 
2.43.0


From 956272eec61c79e6f2df3c0eff1df636a646a446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:44 +0000
Subject: [PATCH 12/15] fix: don't keep state of the previous configuration
 when loading again

---
 tool/ConfigFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 3f2b5b2..247dd19 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -356,6 +356,7 @@ static bool readPrimitiveType(vfc::PrimitiveType& outPrimitiveType, std::uint32_
 		return false;
 	}
 
+	outPatchPoints = 0;
 	if (outPrimitiveType == vfc::PrimitiveType::PatchList)
 	{
 		auto patchPointsIt = rootValue.FindMember("patchPoints");
@@ -612,6 +613,7 @@ bool ConfigFile::load(const char* json, const char* fileName,
 	if (m_vertexStreams.empty())
 		return false;
 
+	m_transforms.clear();
 	auto vertexTransformIt = document.FindMember("vertexTransforms");
 	if (vertexTransformIt != document.MemberEnd() &&
 		!readVertexTransforms(m_transforms, vertexTransformIt->value, fileName, errorFunction))
-- 
2.43.0


From 9c5a62a7426811d18861959f6d656d49fd5ef260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 13/15] fix: keep vertex order when a triangle strip continues
 in a new index buffer

With an even number of indices so far the last two vertices were copied in
reverse, so all but the first of the following triangles used wrong vertices.
---
 lib/src/Converter.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/lib/src/Converter.cpp b/lib/src/Converter.cpp
index 0ca7282..a6a2d2d 100644
--- a/lib/src/Converter.cpp
+++ b/lib/src/Converter.cpp
@@ -365,22 +365,12 @@ void copyConnectedVertices(std::vector<std::vector<std::uint8_t>>& vertices,
 			}
 			else
 			{
-				// Reverse every other primitive.
-				std::uint32_t primitiveCount = stripIndexCount - 2;
-				if (primitiveCount & 1)
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-				}
-				else
-				{
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 2, prevBaseVertex);
-					copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
-						baseVertex, indexCount - 1, prevBaseVertex);
-				}
+				// Keep the last two vertices in order. Reversing them would change all but the first
+				// of the triangles that follow.
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 2, prevBaseVertex);
+				copyVertex(vertices, vertexFormat, vertexSet, indices, indexType, sizeofIndex,
+					baseVertex, indexCount - 1, prevBaseVertex);
 				curIndexCount += 2;
 			}
 			break;
-- 
2.43.0


From bd0cdb101feb9695835e114bc4fbdc4d41fd6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 14/15] fix: report errors when reading the configuration

Reading a directory or another file that fails to be read threw an exception.
---
 tool/ConfigFile.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tool/ConfigFile.cpp b/tool/ConfigFile.cpp
index 247dd19..3ae4042 100644
--- a/tool/ConfigFile.cpp
+++ b/tool/ConfigFile.cpp
@@ -556,7 +556,22 @@ bool ConfigFile::load(const char* fileName, const vfc::Converter::ErrorFunction&
 bool ConfigFile::load(std::istream& stream, const char* fileName,
 	const vfc::Converter::ErrorFunction& errorFunction)
 {
-	std::string json(std::istreambuf_iterator<char>(stream), {});
+	// Read through the stream rather than an iterator to detect errors.
+	std::string json;
+	char buffer[4096];
+	do
+	{
+		stream.read(buffer, sizeof(buffer));
+		json.append(buffer, static_cast<std::size_t>(stream.gcount()));
+	} while (stream.good());
+	if (!stream.eof() || stream.bad())
+	{
+		std::string message = fileName;
+		message += ": error: Couldn't read config file.";
+		errorFunction(message.c_str());
+		return false;
+	}
+
 	return load(json.c_str(), fileName, errorFunction);
 }
 
-- 
2.43.0


From a7cd22c2c8da8a4d6e2f94f8d9d7c496ca31f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 15/15] fix: report errors when writing the result to stdout

The tool reported success when stdout couldn't be written.
---
 tool/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/main.cpp b/tool/main.cpp
index 3c38ce1..7cd798c 100644
--- a/tool/main.cpp
+++ b/tool/main.cpp
@@ -450,6 +450,11 @@ int main(int argc, const char** argv)
 	if (result.empty())
 		return 1;
 
-	std::printf("%s\n", result.c_str());
+	// Flush to detect errors writing the remaining buffered data.
+	if (std::printf("%s\n", result.c_str()) < 0 || std::fflush(stdout) != 0)
+	{
+		std::fprintf(stderr, "error: Couldn't write result.\n");
+		return 1;
+	}
 	return 0;
 }
-- 
2.43.0

