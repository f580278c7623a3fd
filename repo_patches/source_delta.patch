From 4c997f267d176a943a93223d9138e63ebc555bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 01/40] fix: adjacency decomposition lost ridges at infinity
 and reported the face at infinity

getRidges dropped every ridge represented by the row (0,...,0,-1), although it is a
genuine ridge (vertex enumeration, segments, polyhedra containing lines), and rotation
onto the face at infinity of an unbounded polyhedron reported '0 <= 1' as a facet. A
single point crashed.
---
 src/algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp  | 13 ++++++++++++-
 src/algorithm_fourier_motzkin_elimination.h    |  4 ++++
 src/algorithm_rotation.cpp                     | 18 +++++++++++++++---
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..9a657d3 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -17,6 +17,7 @@ namespace panda
    namespace algorithm
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      EXTERN template Matrix<Integer> fourierMotzkinEliminationOfCone(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
    }
 }
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..648d961 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -68,10 +68,21 @@ namespace
    /// Elimination of one ray.
    template <typename Bitset, typename Integer>
    void projection(Matrix<Integer>&, std::vector<Bitset>&, const Vertex<Integer>&, const Index);
+   /// Removes the row that does not describe a facet of the polyhedron, but only the face at infinity (0 <= 1).
+   template <typename Integer>
+   void detectBadRow(Matrix<Integer>&);
 }
 
 template <typename Integer>
 Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)
+{
+   auto matrix = fourierMotzkinEliminationOfCone(std::move(input));
+   detectBadRow(matrix);
+   return matrix;
+}
+
+template <typename Integer>
+Matrix<Integer> panda::algorithm::fourierMotzkinEliminationOfCone(Matrix<Integer> input)
 {
    assert( !input.empty() );
    auto matrix = input;
@@ -127,6 +138,7 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    input.insert(input.begin(), used.cbegin(), used.cend());
    phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
    reinsertZeroColumns(matrix, zero_columns);
+   detectBadRow(matrix);
    return matrix;
 }
 
@@ -348,7 +360,6 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..0632f80 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -22,6 +22,10 @@ namespace panda
       /// extremal vertices/rays is returned.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      /// Full Fourier-Motzkin elimination of the homogenized cone: Same as above, but the
+      /// row that only describes the face at infinity (0 <= 1) is part of the output.
+      template <typename Integer>
+      Matrix<Integer> fourierMotzkinEliminationOfCone(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
       /// Output is guaranteed to contain only facets, but it is highly likely
       /// that it is not the complete set of facets.
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..e8a5421 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -30,6 +30,9 @@ namespace
    /// Returns all vertices that lie on the facet (satisfy the inequality with equality).
    template <typename Integer>
    Vertices<Integer> verticesWithZeroDistance(const Vertices<Integer>&, const Facet<Integer>&);
+   /// Checks if a row is (a multiple of) 0 <= 1, which is valid but does not define a facet.
+   template <typename Integer>
+   bool isFaceAtInfinity(const Facet<Integer>&);
 }
 
 template <typename Integer, typename TagType>
@@ -46,7 +49,10 @@ Matrix<Integer> panda::algorithm::rotation(const Matrix<Integer>& matrix,
    for ( const auto& ridge : ridges )
    {
       const auto new_row = rotate(matrix, furthest_vertex, input, ridge);
-      output.insert(new_row);
+      if ( !isFaceAtInfinity(new_row) )
+      {
+         output.insert(new_row);
+      }
    }
    return classes(output, maps, tag);
 }
@@ -87,7 +93,8 @@ namespace
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
       assert( !vertices_on_facet.empty() );
-      return algorithm::fourierMotzkinElimination(vertices_on_facet);
+      // every ridge is needed here, including one that is the face at infinity of the facet.
+      return algorithm::fourierMotzkinEliminationOfCone(vertices_on_facet);
    }
 
    template <typename Integer>
@@ -100,5 +107,10 @@ namespace
       });
       return selection;
    }
-}
 
+   template <typename Integer>
+   bool isFaceAtInfinity(const Facet<Integer>& facet)
+   {
+      return facet.back() < 0 && std::all_of(facet.cbegin(), facet.cend() - 1, [](const Integer& value) { return value == 0; });
+   }
+}
-- 
2.43.0


From 873eef59fb6f0d12450692ac693f9d8881c4f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 02/40] fix: normalization of maps ignored the leading
 coefficient of equations

subtractEquation assumed that the eliminated coefficient is 1 and overwrote the image it
was iterating over; simplify could step in front of the first term. Maps of polytopes
that are not full-dimensional were therefore wrong, e.g. for 2x + 2y - z = 9.
---
 src/algorithm_map_operations.cpp | 86 +++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 28 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..8bd791e 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -12,6 +12,7 @@
 #include <cassert>
 #include <iostream>
 
+#include "algorithm_integer_operations.h"
 #include "algorithm_row_operations.h"
 
 using namespace panda;
@@ -118,45 +119,45 @@ namespace
       }
    }
 
-   /// Use equation to get eliminated index back to zero.
+   /// Use equation to get eliminated index back to zero. If the coefficient c of the eliminated
+   /// index is not 1, the map is multiplied by |c| in order to stay integral. As images
+   /// of inequalities are invariant under positive scaling, this is the same map.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
+      const auto is_eliminated = [&index](const Term& term) { return term.first == index; };
+      const auto is_affected = std::any_of(map.cbegin(), map.cend(), [&](const Image& image)
+      {
+         return std::any_of(image.cbegin(), image.cend(), is_eliminated);
+      });
+      if ( !is_affected )
+      {
+         return;
+      }
+      const auto sign = (equation[index] < 0) ? -1 : 1;
+      const auto scale = sign * static_cast<Factor>(equation[index]);
       for ( auto& image : map )
       {
          Image new_image;
          for ( const auto& term : image )
          {
-            if ( term.first == index )
+            if ( is_eliminated(term) )
             {
                for ( std::size_t j = index + 1; j < equation.size(); ++j )
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, -sign * term.second * static_cast<Factor>(equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, scale * term.second));
             }
-            image = new_image;
          }
-      }
-   }
-
-   /// Use equations to get eliminated indices back to zero.
-   template <typename Integer>
-   void subtractEquations(Map& map, const Indices& indices, const Equations<Integer>& equations)
-   {
-      assert( indices.size() == equations.size() );
-      for ( std::size_t i = 0; i < indices.size(); ++i )
-      {
-         const auto& index = indices[i];
-         const auto& equation = equations[i];
-         subtractEquation(map, index, equation);
+         image = new_image;
       }
    }
 
@@ -164,26 +165,55 @@ namespace
    /// it can be simplified to [3x2].
    void simplify(Map& map)
    {
+      int gcd_value = 0;
       for ( auto& image : map )
       {
          std::sort(image.begin(), image.end());
-         for ( std::size_t i = 0; i + 1 < image.size(); ++i )
+         Image new_image;
+         for ( const auto& term : image )
          {
-            if ( image[i].first == image[i + 1].first ) // same Index
+            if ( !new_image.empty() && new_image.back().first == term.first ) // same Index
             {
-               image[i].second += image[i + 1].second; // merge factors
-               image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
-               if ( image[i].second == 0 )
-               {
-                  image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
-               }
-               --i; // decrement i because we erased the next item
+               new_image.back().second += term.second; // merge factors
+            }
+            else
+            {
+               new_image.push_back(term);
+            }
+         }
+         new_image.erase(std::remove_if(new_image.begin(), new_image.end(), [](const Term& term) { return term.second == 0; }), new_image.end());
+         for ( const auto& term : new_image )
+         {
+            gcd_value = algorithm::gcd(gcd_value, term.second);
+         }
+         image = new_image;
+      }
+      if ( gcd_value > 1 )
+      {
+         for ( auto& image : map )
+         {
+            for ( auto& term : image )
+            {
+               term.second /= gcd_value;
             }
          }
       }
    }
 
+   /// Use equations to get eliminated indices back to zero.
+   template <typename Integer>
+   void subtractEquations(Map& map, const Indices& indices, const Equations<Integer>& equations)
+   {
+      assert( indices.size() == equations.size() );
+      for ( std::size_t i = 0; i < indices.size(); ++i )
+      {
+         const auto& index = indices[i];
+         const auto& equation = equations[i];
+         subtractEquation(map, index, equation);
+         simplify(map);
+      }
+   }
+
    /// A normalized map can ignore the eliminated indices, as the coefficients are zero
    /// in a normalized inequality.
    template <typename Integer>
-- 
2.43.0


From 260be19c9146dd8e25e1faa3e2631e39d9f5da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 03/40] fix: signs of division, remainder and aliasing in
 BigInteger

Dividing a negative number that does not fit into int returned a positive quotient, the
remainder of a negative multiple was the modulus instead of 0, x *= x was wrong for large
x, and the smallest int was negated.
---
 src/big_integer.cpp              | 12 +-----------
 src/big_integer_arithmetics.cpp  | 22 ++++++++++++++++------
 src/big_integer_comparisons.cpp  | 15 ++++++++++++---
 src/big_integer_constructors.cpp |  2 +-
 4 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..88e9d82 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -88,6 +88,7 @@ BigInteger panda::abs(BigInteger input) noexcept
 
 BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& second)
 {
+   sign = Sign::Positive;
    if ( isMagnitudeSmallerThan(second) )
    {
       BigInteger remainder = *this;
@@ -99,11 +100,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
       *this = BigInteger(1);
       return BigInteger(0);
    }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +115,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..b310111 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -49,8 +49,9 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       auto copy = *this;
+      const auto factor = second; // second may be an alias of *this
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor.data )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
@@ -61,7 +62,7 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
             }
          }
       }
-      if ( second.sign == Sign::Negative )
+      if ( factor.sign == Sign::Negative )
       {
          flipSign();
       }
@@ -90,8 +91,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto divisor_sign = second.sign; // second may be an alias of *this
+      divideMagnitudesWithRemainder(second);
+      if ( divisor_sign != original_sign )
       {
          flipSign();
       }
@@ -172,7 +174,14 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      *this = divideMagnitudesWithRemainder(second);
+      const auto was_negative = isNegative();
+      auto remainder = divideMagnitudesWithRemainder(second);
+      if ( was_negative && !remainder.isZero() )
+      {
+         remainder.flipSign();
+         remainder += second;
+      }
+      *this = remainder;
       return *this;
    }
 }
@@ -273,7 +282,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger(((remainder < 0) ? b : 0) + remainder);
       return first;
    }
 }
diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..2251745 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -11,6 +11,15 @@
 
 using namespace panda;
 
+namespace
+{
+   /// Absolute value, which is also defined for the smallest int.
+   unsigned int magnitude(const int value) noexcept
+   {
+      return (value < 0) ? 0u - static_cast<unsigned int>(value) : static_cast<unsigned int>(value);
+   }
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +30,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == static_cast<decltype(data[0])>(magnitude(value));
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +50,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > static_cast<DataType>(magnitude(value)));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +67,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < static_cast<DataType>(magnitude(value)));
    }
    return (data[0] > static_cast<DataType>(value));
 }
diff --git a/src/big_integer_constructors.cpp b/src/big_integer_constructors.cpp
index 046e606..a5ace97 100644
--- a/src/big_integer_constructors.cpp
+++ b/src/big_integer_constructors.cpp
@@ -145,7 +145,7 @@ panda::BigInteger::operator int() const
    }
    else
    {
-      return -static_cast<int>(data[0]);
+      return static_cast<int>(-static_cast<int64_t>(data[0])); // -data[0] may be the smallest int
    }
 }
 
-- 
2.43.0


From 5ae29eafc9adecbd88e3cd494e2c4b481f667c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 04/40] fix: gcd did not terminate for the smallest value of a
 fixed width integer type

---
 src/algorithm_integer_operations.cpp | 29 ++++++++++++++++++++++++----
 src/algorithm_row_operations.cpp     |  4 +---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/algorithm_integer_operations.cpp b/src/algorithm_integer_operations.cpp
index bc99540..befa1f2 100644
--- a/src/algorithm_integer_operations.cpp
+++ b/src/algorithm_integer_operations.cpp
@@ -8,9 +8,9 @@
 #include "algorithm_integer_operations.h"
 #undef COMPILE_TEMPLATE_ALGORITHM_INTEGER_OPERATIONS
 
-#include <cassert>
 #include <cstdint>
 #include <cstdlib>
+#include <type_traits>
 
 using namespace panda;
 
@@ -19,13 +19,18 @@ namespace
    /// optimized gcd for unsigned integer values.
    template <typename Integer>
    Integer unsigned_gcd(Integer, Integer) noexcept;
+   /// gcd for fundamental types: calculates with unsigned values, as the absolute value of the smallest integer is not representable.
+   template <typename Integer>
+   Integer signed_gcd(Integer, Integer, std::true_type) noexcept;
+   /// gcd for all other types.
+   template <typename Integer>
+   Integer signed_gcd(Integer, Integer, std::false_type) noexcept;
 }
 
 template <typename Integer>
 Integer panda::algorithm::gcd(Integer a, Integer b) noexcept
 {
-   using std::abs;
-   return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));
+   return signed_gcd(a, b, std::is_integral<Integer>{});
 }
 
 template <typename Integer>
@@ -43,10 +48,26 @@ short panda::algorithm::abs(const short n)
 
 namespace
 {
+   template <typename Integer>
+   Integer signed_gcd(Integer a, Integer b, std::true_type) noexcept
+   {
+      using Unsigned = typename std::make_unsigned<Integer>::type;
+      const auto magnitude = [](const Integer n)
+      {
+         return static_cast<Unsigned>((n < 0) ? Unsigned(0) - static_cast<Unsigned>(n) : static_cast<Unsigned>(n));
+      };
+      return static_cast<Integer>(unsigned_gcd(magnitude(a), magnitude(b)));
+   }
+
+   template <typename Integer>
+   Integer signed_gcd(Integer a, Integer b, std::false_type) noexcept
+   {
+      return unsigned_gcd(static_cast<Integer>(abs(a)), static_cast<Integer>(abs(b)));
+   }
+
    template <typename Integer>
    Integer unsigned_gcd(Integer a, Integer b) noexcept
    {
-      assert( a >= 0 && b >= 0 );
       while ( a != 0 && b != 0 )
       {
          if ( a > b )
diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 80bc075..228bb59 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -252,9 +252,7 @@ Integer panda::algorithm::gcd(const Row<Integer>& row) noexcept
    }
    if ( i < row.size() )
    {
-      using std::abs;
-      using algorithm::abs;
-      value = abs(row[i]);
+      value = gcd(row[i], value);
       ++i;
    }
    for ( ; i < row.size() && value > 1; ++i )
-- 
2.43.0


From 1a4b0abee63b6f656444cf0aa8e6c41a5b73d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 05/40] fix: termination row was inserted into the shared set
 of rows without holding the lock

---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..bd689d2 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
-      const auto it = rows.insert(Row<Integer>{}).first;
       std::unique_lock<std::mutex> lock(mutex);
+      const auto it = rows.insert(Row<Integer>{}).first;
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From 3482a95afc298801f43e189b9e0043bd39548bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 06/40] fix: known vertices were normalized with a dangling
 reference to a temporary

---
 src/method_adjacency_decomposition_implementation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..6b26a25 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,10 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      // the equations (there are none in this case) are captured by reference, thus no temporary may be passed.
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays");
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From 5b92f9defe56c52c3301cf6d9211106583abe971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 07/40] fix: file name was skipped after a short option of the
 form -s=<arg>

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..56d9eb6 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -127,7 +127,8 @@ namespace
    bool requiresParameter(char* argument) noexcept
    {
       return (std::strcmp(argument, "-c") != 0 && // --check
-              std::strcmp(argument, "-f") != 0);  // --filter
+              std::strcmp(argument, "-f") != 0 && // --filter
+              std::strchr(argument, '=') == nullptr); // "-s=<arg>" contains its parameter already
    }
 
    std::set<Keyword> keywords(const PositionGuardedFile& pg)
-- 
2.43.0


From 1e8db0fd1ade0c8b41badd44041a5f9f5069ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 08/40] fix: malformed vertices and rays were silently
 truncated or caused an infinite loop

---
 src/input_vertex.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..a034e13 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -103,6 +103,11 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
       {
          conv.push_back(vertex);
       }
+      skipEndOfLine(stream);
+      if ( isEndOfFile(stream) )
+      {
+         break;
+      }
    }
    return conv;
 }
@@ -117,14 +122,23 @@ namespace
       skipWhitespace(stream);
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) )
       {
+         int tmp;
+         if ( !(stream >> tmp) )
+         {
+            errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+         }
          numerator.push_back(tmp);
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
@@ -136,10 +150,6 @@ namespace
             denominator.push_back(1);
          }
          skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
-         }
       }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
-- 
2.43.0


From 57cff8d8b3db9b29f3c0d8d2fcd01be39369226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 09/40] fix: common denominator of fractional coordinates
 overflowed silently

---
 src/input_vertex.cpp | 42 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index a034e13..a4dff43 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -7,10 +7,13 @@
 #include "input_vertex.h"
 
 #include <cassert>
+#include <cstdint>
+#include <cstdlib>
+#include <limits>
 #include <stdexcept>
 #include <string>
+#include <utility>
 
-#include "algorithm_row_operations.h"
 #include "input_common.h"
 #include "input_keywords.h"
 #include "istream_peek_line.h"
@@ -115,6 +118,32 @@ ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 namespace
 {
    using namespace input;
+   int toIntInRange(const int64_t value, const std::string& id)
+   {
+      if ( value < -std::numeric_limits<int>::max() || value > std::numeric_limits<int>::max() )
+      {
+         errorWithLineInformation<std::invalid_argument>("Coordinate of vertex / ray is out of range", id);
+      }
+      return static_cast<int>(value);
+   }
+
+   /// The least common multiple of all denominators (positive).
+   int64_t commonDenominator(const Row<int>& denominators, const std::string& id)
+   {
+      int64_t lcm = 1;
+      for ( const int64_t denominator : denominators )
+      {
+         auto gcd = lcm;
+         for ( auto rest = std::abs(denominator); rest != 0; )
+         {
+            gcd %= rest;
+            std::swap(gcd, rest);
+         }
+         lcm = toIntInRange(lcm / gcd * std::abs(denominator), id);
+      }
+      return lcm;
+   }
+
    Row<int> vertex(std::istream& stream)
    {
       skipWhitespace(stream);
@@ -156,15 +185,12 @@ namespace
       {
          return numerator;
       }
-      const auto lcm_value = algorithm::lcm(denominator);
-      if ( lcm_value > 0 )
+      const auto lcm_value = commonDenominator(denominator, id);
+      for ( std::size_t i = 0; i < numerator.size(); ++i )
       {
-         for ( std::size_t i = 0; i < numerator.size(); ++i )
-         {
-            numerator[i] *= lcm_value / denominator[i];
-         }
+         numerator[i] = toIntInRange(numerator[i] * (lcm_value / denominator[i]), id);
       }
-      numerator.push_back(lcm_value);
+      numerator.push_back(static_cast<int>(lcm_value));
       return numerator;
    }
 }
-- 
2.43.0


From 4621bf58e196114adc8706deae341f65163d9015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 10/40] fix: maps with a wrong number of images were misread,
 maps without names caused an infinite loop

---
 src/input_map.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..66ebce3 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -30,6 +30,10 @@ Maps panda::input::implementation::maps(std::istream& stream, const Names& names
    {
       throw std::invalid_argument("Cannot read maps: file is at an invalid position.");
    }
+   if ( names.empty() )
+   {
+      throw std::invalid_argument("Cannot read maps: names must be declared before the section of maps.");
+   }
    while ( stream && !isKeyword(trimWhitespace(peekLine(stream))) )
    {
       if ( trimWhitespace(peekLine(stream)).empty() )
@@ -138,6 +142,11 @@ namespace
          stream >> token;
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index != result.size() || (stream && !isEndOfLine(stream) && !isEndOfFile(stream)) )
+      {
+         throw std::invalid_argument("The number of images does not match the number of names.");
       }
       return result;
    }
-- 
2.43.0


From bfe40859e194144cd56794253dab0f842c400e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 11/40] fix: the documented form DIM=N of the dimension field
 was not recognized

---
 src/input_keywords.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..81ba3d8 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -11,6 +11,28 @@
 
 using namespace panda;
 
+namespace
+{
+   /// Checks if the string is of the form "DIM=3" or "DIM = 3".
+   bool isDimensionAssignment(const std::string& string) noexcept
+   {
+      const auto assignment = string.find('=');
+      if ( assignment == std::string::npos )
+      {
+         return false;
+      }
+      const auto end_of_word = string.find_first_of(" \t=");
+      if ( string.find_first_not_of(" \t", end_of_word) != assignment )
+      {
+         return false;
+      }
+      return string.compare(0, end_of_word, "DIM") == 0 ||
+             string.compare(0, end_of_word, "DIMENSION") == 0 ||
+             string.compare(0, end_of_word, "Dim") == 0 ||
+             string.compare(0, end_of_word, "Dimension") == 0;
+   }
+}
+
 bool panda::input::implementation::containsKeywords(const PositionGuardedFile& pg)
 {
    // We are not going to read the whole file, because it is potentially huge.
@@ -114,7 +136,8 @@ bool panda::input::implementation::isKeywordDimension(const std::string& string)
            string == "Dim" ||
            string == "Dim=" ||
            string == "Dimension" ||
-           string == "Dimension=");
+           string == "Dimension=" ||
+           isDimensionAssignment(string));
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 75a1d221f0dd0d167a2179d043621fa5f9fd4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 12/40] fix: integers with trailing characters were silently
 truncated, the smallest integer was negated

---
 src/input_common.cpp                       | 7 ++++++-
 src/input_constraint_unnamed_variables.cpp | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..e8bbb6e 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -7,6 +7,7 @@
 #include "input_common.h"
 
 #include <algorithm>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 
@@ -245,10 +246,14 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
+   if ( result == std::numeric_limits<int>::min() ) // the negative value is not representable.
+   {
+      throw std::invalid_argument("toInt: Argument is out of range.");
+   }
    return result;
 }
 
diff --git a/src/input_constraint_unnamed_variables.cpp b/src/input_constraint_unnamed_variables.cpp
index 92beebc..15c716c 100644
--- a/src/input_constraint_unnamed_variables.cpp
+++ b/src/input_constraint_unnamed_variables.cpp
@@ -6,6 +6,7 @@
 
 #include "input_constraint_unnamed_variables.h"
 
+#include <limits>
 #include <stdexcept>
 
 #include "input_common.h"
@@ -69,6 +70,10 @@ namespace
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral token in inequality", id);
             }
+            if ( coefficient == std::numeric_limits<int>::min() ) // the negative value is not representable.
+            {
+               errorWithLineInformation<std::invalid_argument>("Coefficient is out of range", id);
+            }
             if ( has_rhs )
             {
                errorWithLineInformation<std::invalid_argument>("Only one coefficient allowed on right hand side", id);
-- 
2.43.0


From 825b8aba0f0e36e840b96765fcd1961d0a27a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 13/40] fix: dimensions of equations, known data and maps were
 not checked

---
 src/input.cpp             | 22 +++++++++++++++++++---
 src/input_consistency.cpp | 11 +++++++++++
 src/input_consistency.h   |  2 ++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..4647222 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -47,9 +47,19 @@ namespace
 
 namespace
 {
+   /// Maps are applied to the rows while reading, hence the dimensions have to match already.
+   void checkDimensions(const Matrix<int>& rows, const Equations<int>& equations, const Maps& maps)
+   {
+      if ( !rows.empty() )
+      {
+         input::implementation::checkConsistencyOfRows(rows.front().size(), equations, rows, maps);
+      }
+   }
+
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      checkDimensions(conv, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -59,6 +69,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      checkDimensions(conv, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -69,6 +80,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      checkDimensions(cone, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -78,6 +90,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      checkDimensions(cone, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -88,6 +101,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkDimensions(inequalities, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -97,6 +111,7 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkDimensions(inequalities, equations, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -164,14 +179,14 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
          std::getline(file, token);
       }
    }
-   implementation::checkConsistency(conv, cone, names, maps, dimension);
+   const auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
    sort(argc, argv, cone);
    sort(argc, argv, conv);
    Matrix<int> vertices;
    vertices.reserve(cone.size() + conv.size());
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
-   auto known_facets = knownFacets(argc, argv, names);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -228,7 +243,9 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
          std::getline(file, token);
       }
    }
+   const auto known_vertices = knownVertices(argc, argv);
    implementation::checkConsistency(inequalities, names, dimension);
+   implementation::checkConsistencyOfRows(inequalities.front().size(), equations, known_vertices, maps);
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
    {
@@ -238,7 +255,6 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
-   auto known_vertices = knownVertices(argc, argv);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
diff --git a/src/input_consistency.cpp b/src/input_consistency.cpp
index 699891a..ae7c8db 100644
--- a/src/input_consistency.cpp
+++ b/src/input_consistency.cpp
@@ -43,6 +43,10 @@ void panda::input::implementation::checkConsistency(const Inequalities<int>& ine
       throw std::invalid_argument("Invalid input data: No inequalities.");
    }
    const auto dim = inequalities.front().size();
+   if ( dim < 2 )
+   {
+      throw std::invalid_argument("Invalid input data: Inequalities without variables.");
+   }
    rangeDimensionCheck(inequalities, dim, "Invalid input data: Inconsistent dimensions (an inequality is invalid).");
    if ( !names.empty() && names.size() + 1 != dim )
    {
@@ -54,6 +58,13 @@ void panda::input::implementation::checkConsistency(const Inequalities<int>& ine
    }
 }
 
+void panda::input::implementation::checkConsistencyOfRows(const std::size_t dim, const Equations<int>& equations, const Vertices<int>& vertices, const Maps& maps)
+{
+   rangeDimensionCheck(equations, dim, "Invalid input data: Inconsistent dimensions (an equation is invalid).");
+   rangeDimensionCheck(vertices, dim, "Invalid input data: Inconsistent dimensions (a row is invalid).");
+   rangeDimensionCheck(maps, dim, "Invalid input data: Inconsistent dimensions (a map is invalid).");
+}
+
 void panda::input::implementation::checkConsistency(const ConvexHull<int>& conv, const ConicalHull<int>& cone, const Inequalities<int>& inequalities, const Names& names, const Maps& maps, const std::size_t dimension)
 {
    if ( conv.empty() && cone.empty() )
diff --git a/src/input_consistency.h b/src/input_consistency.h
index ab80e58..66f9e73 100644
--- a/src/input_consistency.h
+++ b/src/input_consistency.h
@@ -22,6 +22,8 @@ namespace panda
          void checkConsistency(const ConvexHull<int>&, const ConicalHull<int>&, const Names&, const Maps&, const std::size_t);
          /// Checks the consistency of an inequality description.
          void checkConsistency(const Inequalities<int>&, const Names&, const std::size_t);
+         /// Checks if equations, known vertices and maps accompanying an inequality description have the correct dimension.
+         void checkConsistencyOfRows(const std::size_t, const Equations<int>&, const Vertices<int>&, const Maps&);
          /// Checks the consistency of a polytope.
          void checkConsistency(const ConvexHull<int>&, const ConicalHull<int>&, const Inequalities<int>&, const Names&, const Maps&, const std::size_t);
       }
-- 
2.43.0


From 3e4f88e0f170a99b544f941e1ca3f19b1e0c3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 14/40] fix: validity check rejected valid maps if rows had
 common divisors or were repeated

---
 src/input_validity.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..0014a41 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -24,6 +24,8 @@ namespace
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   /// Returns the set of rows, each row being reduced by its greatest common divisor (as are images of maps).
+   Matrix<int> normalize(Matrix<int>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -59,18 +61,20 @@ void panda::input::implementation::checkValidityOfVertices(const Matrix<int>& ma
 /// Input is considered valid if and only if each map is a bijection on the set of inequalities.
 void panda::input::implementation::checkValidityOfInequalityClasses(const Inequalities<int>& inequalities, const Maps& maps)
 {
+   const auto rows = ::normalize(inequalities);
    for ( const auto& map : maps )
    {
-      checkValidityInequalities(inequalities, map);
+      checkValidityInequalities(rows, map);
    }
 }
 
 /// Input is considered valid if and only if each map is a bijection on the set of vertices.
 void panda::input::implementation::checkValidityOfVertexClasses(const Vertices<int>& vertices, const Maps& maps)
 {
+   const auto rows = ::normalize(vertices);
    for ( const auto& map : maps )
    {
-      checkValidityVertices(vertices, map);
+      checkValidityVertices(rows, map);
    }
 }
 
@@ -213,6 +217,21 @@ namespace
       }
    }
 
+   Matrix<int> normalize(Matrix<int> matrix)
+   {
+      for ( auto& row : matrix )
+      {
+         const auto gcd_value = algorithm::gcd(row);
+         if ( gcd_value > 1 )
+         {
+            row /= gcd_value;
+         }
+      }
+      std::sort(matrix.begin(), matrix.end());
+      matrix.erase(std::unique(matrix.begin(), matrix.end()), matrix.end());
+      return matrix;
+   }
+
    void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
    {
       std::vector<std::size_t> indices(matrix.size());
-- 
2.43.0


From 57a454786f502252ddbc0e06b30d0b97d18ec916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 15/40] fix: expansion of reduced inequalities required
 equations and rows in an undocumented normal form

---
 src/input.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index 4647222..e01ac72 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -108,6 +108,21 @@ namespace
       }
       return inequalities;
    }
+   /// Normalization of rows and maps requires linearly independent equations where each equation
+   /// eliminates another variable. Equations provided by the user may be arbitrary.
+   Equations<int> normalForm(const Equations<int>& equations)
+   {
+      if ( equations.empty() )
+      {
+         return equations;
+      }
+      const auto affine_hull = algorithm::extractEquations(equations);
+      if ( affine_hull.empty() )
+      {
+         throw std::invalid_argument("The system of equations has no solution.");
+      }
+      return algorithm::extractEquations(affine_hull);
+   }
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
@@ -120,7 +135,12 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
+      const auto normal_form = normalForm(equations);
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, normal_form);
+      }
+      const auto tmp_maps = algorithm::normalize(maps, normal_form);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
    }
-- 
2.43.0


From 9c7ab116d2a99478d2f79c06d55c90940549fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 16/40] fix: buffers of non-blocking sends did not outlive the
 sends, empty results were dereferenced

---
 src/communication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5722b37..8d00f6d 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -85,10 +85,11 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
 {
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
+   // the buffers must not be modified or destroyed before completion of all of the requests.
+   const auto size = matrix.size();
+   const auto row_size = matrix.empty() ? std::size_t{0} : matrix.back().size();
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
-      const auto size = matrix.size();
-      const auto row_size = matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0


From 5430d72ce194a196bdf430934ff0e59327757f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 17/40] fix: inner descriptions of polyhedra containing lines
 lacked the lines

---
 ...od_adjacency_decomposition_implementation.cpp | 16 ++++++++++++++++
 src/method_double_description.cpp                |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index 6b26a25..e4fffc3 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -115,6 +115,21 @@ namespace
       return reduce(data, [](const Matrix<Integer>&, const Names&) {});
    }
 
+   /// A polyhedron containing lines has no vertices: the lines are part of its inner description.
+   template <typename Integer>
+   void printLines(const Matrix<Integer>&, tag::facet)
+   {
+   }
+
+   template <typename Integer>
+   void printLines(const Matrix<Integer>& inequalities, tag::vertex)
+   {
+      for ( const auto& line : algorithm::extractEquations(inequalities) )
+      {
+         std::cout << line << '\n' << Integer(-1) * line << '\n';
+      }
+   }
+
    template <typename Integer, template <typename, typename> class JobManagerType>
    std::pair<Equations<Integer>, Maps> reduce(const JobManagerType<Integer, tag::vertex>&, const std::tuple<Matrix<Integer>, Names, Maps, Matrix<Integer>>& data)
    {
@@ -131,6 +146,7 @@ namespace
          std::cout << "Reduced ";
       }
       std::cout << type_string << ":\n";
+      printLines(matrix, TagType{});
       // Initialize the process (so that other processes start).
       if ( !known_output.empty() )
       {
diff --git a/src/method_double_description.cpp b/src/method_double_description.cpp
index 0315197..cca519d 100644
--- a/src/method_double_description.cpp
+++ b/src/method_double_description.cpp
@@ -174,6 +174,12 @@ namespace
       // computation: identifying extremal vertices and rays
       auto matrix = algorithm::fourierMotzkinElimination(inequalities);
       matrix = algorithm::classes(matrix, maps, tag::vertex{});
+      // a polyhedron containing lines has no vertices: the lines are part of its inner description.
+      for ( const auto& line : algorithm::extractEquations(inequalities) )
+      {
+         matrix.push_back(line);
+         matrix.push_back(Integer(-1) * line);
+      }
       // output
       const auto is_reduced = !maps.empty();
       print(std::move(matrix), is_reduced);
-- 
2.43.0


From 9221e80d8bdcb437437ca61b74739c030da7bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 18/40] fix: rows with names were taken for rows without if an
 earlier name has the name as prefix

---
 src/input_common.cpp | 31 +++++++------------------------
 src/input_common.h   |  2 +-
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index e8bbb6e..e16a22f 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -197,32 +197,15 @@ std::string panda::input::trimWhitespace(std::string string)
 
 bool panda::input::containsNames(const Names& names, std::istream& stream)
 {
-   const auto stream_position = stream.tellg();
-   const auto guard = makeScopeGuard([&]()
-   {
-      stream.clear();
-      stream.seekg(stream_position);
-   });
-   std::size_t counter = 0;
-   constexpr std::size_t max_counter = 2000; // this constant is actually arbitrary. We simply assume that if the first 2000 tokens do not contain a name, it will hold for the rest as well.
-   while ( stream && counter < max_counter )
+   auto line = trimWhitespace(peekLine(stream));
+   if ( !line.empty() && line.front() == '(' ) // the identifier may contain anything.
    {
-      auto position = names.cbegin();
-      std::string word = "";
-      while ( stream && position != names.cend() )
-      {
-         const auto character = static_cast<char>(stream.get());
-         word.append(1, character);
-         position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
-         {
-            return true;
-         }
-         ++counter;
-      }
+      line.erase(0, line.find(')'));
    }
-   // assuming that if a name occurs it will do so in the first few characters
-   return false;
+   return std::any_of(names.cbegin(), names.cend(), [&line](const Name& name)
+   {
+      return line.find(name) != std::string::npos;
+   });
 }
 
 Row<int> panda::input::normalize(Row<int> row, RelationOperator relation)
diff --git a/src/input_common.h b/src/input_common.h
index 46a554d..01f3ca3 100644
--- a/src/input_common.h
+++ b/src/input_common.h
@@ -49,7 +49,7 @@ namespace panda
       /// Trims trailing and leading whitespace.
       std::string trimWhitespace(std::string);
 
-      /// Returns if any of the names occurs in the rest of the stream.
+      /// Returns if any of the names occurs in the next line of the stream (without its identifier).
       bool containsNames(const Names&, std::istream&);
 
       /// Throws and exception of type ExceptionType with a message (first argument)
-- 
2.43.0


From 8c3132b1993d642ec1d3fbf9d407d3fd4f138938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 19/40] fix: adjacency decomposition of a polyhedron without
 proper faces rotated around nothing

---
 src/algorithm_rotation.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index e8a5421..76f92ef 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -92,7 +92,14 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      const auto is_zero = [](const Vertex<Integer>& vertex)
+      {
+         return std::all_of(vertex.cbegin(), vertex.cend(), [](const Integer& value) { return value == 0; });
+      };
+      if ( std::all_of(vertices_on_facet.cbegin(), vertices_on_facet.cend(), is_zero) )
+      {
+         return Inequalities<Integer>{}; // there is nothing to rotate around.
+      }
       // every ridge is needed here, including one that is the face at infinity of the facet.
       return algorithm::fourierMotzkinEliminationOfCone(vertices_on_facet);
    }
-- 
2.43.0


From d5ae713f775cf2ab061db3c21a4a016502f36632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 20/40] fix: validity check and expansion ignored maps and
 equations of later sections

---
 src/input.cpp | 96 +++++++++++++++++++++------------------------------
 1 file changed, 39 insertions(+), 57 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index e01ac72..339427a 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -56,57 +56,23 @@ namespace
       }
    }
 
-   Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
+   /// Validates or expands rows, which requires that all sections of the file have been read.
+   void processVertices(int argc, char** argv, Vertices<int>& vertices, const bool reduced, const Maps& maps)
    {
-      const auto conv = input::implementation::verticesConvex(file);
-      checkDimensions(conv, {}, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfVertexClasses(conv, maps);
-      }
-      return conv;
-   }
-   Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
-   {
-      auto conv = input::implementation::verticesConvex(file);
-      checkDimensions(conv, {}, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
-      }
-      expandVertices(conv, maps);
-      return conv;
-   }
-   Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
-   {
-      const auto cone = input::implementation::verticesConical(file);
-      checkDimensions(cone, {}, maps);
-      if ( input::checkValidity(argc, argv) )
+      checkDimensions(vertices, {}, maps);
+      if ( !reduced )
       {
-         input::implementation::checkValidityOfVertexClasses(cone, maps);
+         if ( input::checkValidity(argc, argv) )
+         {
+            input::implementation::checkValidityOfVertexClasses(vertices, maps);
+         }
+         return;
       }
-      return cone;
-   }
-   Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
-   {
-      auto cone = input::implementation::verticesConical(file);
-      checkDimensions(cone, {}, maps);
       if ( input::checkValidity(argc, argv) )
       {
-         std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
+         std::cerr << "Warning: validity of input vertices / rays cannot be verified for reduced input.\n";
       }
-      expandVertices(cone, maps);
-      return cone;
-   }
-   Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
-   {
-      const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
-      checkDimensions(inequalities, {}, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
-      }
-      return inequalities;
+      expandVertices(vertices, maps);
    }
    /// Normalization of rows and maps requires linearly independent equations where each equation
    /// eliminates another variable. Equations provided by the user may be arbitrary.
@@ -123,10 +89,18 @@ namespace
       }
       return algorithm::extractEquations(affine_hull);
    }
-   Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
+   /// Validates or expands rows, which requires that all sections of the file have been read.
+   void processInequalities(int argc, char** argv, Inequalities<int>& inequalities, const bool reduced, const Maps& maps, const Equations<int>& equations)
    {
-      auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
       checkDimensions(inequalities, equations, maps);
+      if ( !reduced )
+      {
+         if ( input::checkValidity(argc, argv) )
+         {
+            input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
+         }
+         return;
+      }
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -142,7 +116,6 @@ namespace
       }
       const auto tmp_maps = algorithm::normalize(maps, normal_form);
       expandInequalities(inequalities, tmp_maps);
-      return inequalities;
    }
 }
 
@@ -157,6 +130,8 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    }
    ConvexHull<int> conv;
    ConvexHull<int> cone;
+   bool conv_is_reduced = false;
+   bool cone_is_reduced = false;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
@@ -180,25 +155,29 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
-         conv = readVerticesConvex(argc, argv, file, maps);
+         conv = implementation::verticesConvex(file);
       }
       else if ( implementation::isKeywordReducedConvexHull(token) )
       {
-         conv = readVerticesReducedConvex(argc, argv, file, maps);
+         conv = implementation::verticesConvex(file);
+         conv_is_reduced = true;
       }
       else if ( implementation::isKeywordConicalHull(token) )
       {
-         cone = readVerticesConical(argc, argv, file, maps);
+         cone = implementation::verticesConical(file);
       }
       else if ( implementation::isKeywordReducedConicalHull(token) )
       {
-         cone = readVerticesReducedConical(argc, argv, file, maps);
+         cone = implementation::verticesConical(file);
+         cone_is_reduced = true;
       }
       else
       {
          std::getline(file, token);
       }
    }
+   processVertices(argc, argv, conv, conv_is_reduced, maps);
+   processVertices(argc, argv, cone, cone_is_reduced, maps);
    const auto known_facets = knownFacets(argc, argv, names);
    implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
    sort(argc, argv, cone);
@@ -225,6 +204,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    }
    Equations<int> equations;
    Inequalities<int> inequalities;
+   bool is_reduced = false;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
@@ -252,17 +232,19 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
       else if ( implementation::isKeywordInequalities(token) )
       {
-         inequalities = readInequalities(argc, argv, file, names, maps);
+         inequalities = implementation::constraints<ConstraintType::Inequality>(file, names);
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
-         inequalities = readReducedInequalities(argc, argv, file, names, maps, equations);
+         inequalities = implementation::constraints<ConstraintType::Inequality>(file, names);
+         is_reduced = true;
       }
       else
       {
          std::getline(file, token);
       }
    }
+   processInequalities(argc, argv, inequalities, is_reduced, maps, equations);
    const auto known_vertices = knownVertices(argc, argv);
    implementation::checkConsistency(inequalities, names, dimension);
    implementation::checkConsistencyOfRows(inequalities.front().size(), equations, known_vertices, maps);
@@ -372,7 +354,7 @@ namespace
       input::advanceToNextKeyword(file, token);
       if ( input::implementation::isKeywordInequalities(token) )
       {
-         return readInequalities(argc, argv, file, names, {});
+         return input::implementation::constraints<ConstraintType::Inequality>(file, names);
       }
       throw std::invalid_argument("Expected no other keyword than \"Inequalities\" in a file containing known facets.");
    }
@@ -395,11 +377,11 @@ namespace
       {
          if ( input::implementation::isKeywordConvexHull(token) )
          {
-            conv = readVerticesConvex(argc, argv, file, {});
+            conv = input::implementation::verticesConvex(file);
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
-            cone = readVerticesConical(argc, argv, file, {});
+            cone = input::implementation::verticesConical(file);
          }
          else
          {
-- 
2.43.0


From 693a04ec65564c4358f078784ac0d8ddbbd1333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 21/40] fix: repeated sections silently replaced the former
 ones

---
 src/input.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index 339427a..f45d698 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -56,6 +56,16 @@ namespace
       }
    }
 
+   /// A section that is given twice would silently replace the former one.
+   template <typename Range>
+   void checkNoRepetition(const Range& range, const std::string& keyword)
+   {
+      if ( !range.empty() )
+      {
+         throw std::invalid_argument("Invalid input data: Section \"" + keyword + "\" is repeated.");
+      }
+   }
+
    /// Validates or expands rows, which requires that all sections of the file have been read.
    void processVertices(int argc, char** argv, Vertices<int>& vertices, const bool reduced, const Maps& maps)
    {
@@ -147,27 +157,33 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       }
       else if ( implementation::isKeywordNames(token) )
       {
+         checkNoRepetition(names, token);
          names = implementation::names(file);
       }
       else if ( implementation::isKeywordMaps(token) )
       {
+         checkNoRepetition(maps, token);
          maps = implementation::maps(file, names);
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
+         checkNoRepetition(conv, token);
          conv = implementation::verticesConvex(file);
       }
       else if ( implementation::isKeywordReducedConvexHull(token) )
       {
+         checkNoRepetition(conv, token);
          conv = implementation::verticesConvex(file);
          conv_is_reduced = true;
       }
       else if ( implementation::isKeywordConicalHull(token) )
       {
+         checkNoRepetition(cone, token);
          cone = implementation::verticesConical(file);
       }
       else if ( implementation::isKeywordReducedConicalHull(token) )
       {
+         checkNoRepetition(cone, token);
          cone = implementation::verticesConical(file);
          cone_is_reduced = true;
       }
@@ -220,22 +236,27 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
       else if ( implementation::isKeywordNames(token) )
       {
+         checkNoRepetition(names, token);
          names = implementation::names(file);
       }
       else if ( implementation::isKeywordMaps(token) )
       {
+         checkNoRepetition(maps, token);
          maps = implementation::maps(file, names);
       }
       else if ( implementation::isKeywordEquations(token) )
       {
+         checkNoRepetition(equations, token);
          equations = implementation::constraints<ConstraintType::Equation>(file, names);
       }
       else if ( implementation::isKeywordInequalities(token) )
       {
+         checkNoRepetition(inequalities, token);
          inequalities = implementation::constraints<ConstraintType::Inequality>(file, names);
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
+         checkNoRepetition(inequalities, token);
          inequalities = implementation::constraints<ConstraintType::Inequality>(file, names);
          is_reduced = true;
       }
@@ -354,7 +375,16 @@ namespace
       input::advanceToNextKeyword(file, token);
       if ( input::implementation::isKeywordInequalities(token) )
       {
-         return input::implementation::constraints<ConstraintType::Inequality>(file, names);
+         const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+         while ( input::advanceToNextKeyword(file, token) )
+         {
+            if ( input::implementation::isKeywordInequalities(token) )
+            {
+               checkNoRepetition(inequalities, token);
+            }
+            std::getline(file, token);
+         }
+         return inequalities;
       }
       throw std::invalid_argument("Expected no other keyword than \"Inequalities\" in a file containing known facets.");
    }
@@ -377,10 +407,12 @@ namespace
       {
          if ( input::implementation::isKeywordConvexHull(token) )
          {
+            checkNoRepetition(conv, token);
             conv = input::implementation::verticesConvex(file);
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
+            checkNoRepetition(cone, token);
             cone = input::implementation::verticesConical(file);
          }
          else
-- 
2.43.0


From 155a4d920b076ac90984403a8b898d81f97c683c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 22/40] fix: help on the options for known data was not found
 under their names

---
 src/help.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/help.cpp b/src/help.cpp
index 4e4bed1..0b18be0 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -197,7 +197,7 @@ namespace
       {
          printHelpCommandIntegerType();
       }
-      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" )
+      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" || command == "known-facets" || command == "--known-facets" || command == "known-vertices" || command == "--known-vertices" || command == "known-data" || command == "--known-data" )
       {
          printHelpCommandKnownData();
       }
-- 
2.43.0


From 23b62c5a7a0779f2ffb3d0a3b0d466e62d5ef175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 23/40] fix: the documented option --checked was ignored

---
 src/input_validity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 0014a41..c7ab366 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -110,7 +110,7 @@ bool panda::input::checkValidity(int argc, char** argv) noexcept
 {
    for ( int i = 1; i < argc; ++i )
    {
-      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 )
+      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 || std::strcmp(argv[i], "--checked") == 0 )
       {
          return true;
       }
-- 
2.43.0


From 19647a2b8530defbd88d6a694341b119d3e2b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 24/40] fix: a delayed action that had been moved from was
 performed as well

---
 src/delayed_action.h   |  4 ++--
 src/delayed_action.tpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/delayed_action.h b/src/delayed_action.h
index d73c43a..0530545 100644
--- a/src/delayed_action.h
+++ b/src/delayed_action.h
@@ -42,8 +42,8 @@ namespace panda
          ~DelayedAction();
          /// Deleted copy constructor.
          DelayedAction(const DelayedAction&) = delete;
-         /// Default move constructor.
-         DelayedAction(DelayedAction&&) = default;
+         /// Move constructor. The action moved from will not be performed.
+         DelayedAction(DelayedAction&&);
          /// If the delayed action is dismissed, the action will not be performed
          /// no matter how the scope is exited.
          void dismiss() noexcept;
diff --git a/src/delayed_action.tpp b/src/delayed_action.tpp
index e98d551..c835840 100644
--- a/src/delayed_action.tpp
+++ b/src/delayed_action.tpp
@@ -5,6 +5,7 @@
 //-------------------------------------------------------------------------------//
 
 #include <thread>
+#include <utility>
 
 template <typename Runnable>
 panda::DelayedAction<Runnable> panda::makeDelayedAction(Runnable&& runnable, std::chrono::seconds time)
@@ -38,6 +39,17 @@ panda::DelayedAction<Runnable>::DelayedAction(Runnable&& runnable_, std::chrono:
 {
 }
 
+template <typename Runnable>
+panda::DelayedAction<Runnable>::DelayedAction(DelayedAction&& other)
+:
+   dismissed(other.dismissed),
+   runnable(std::forward<Runnable>(other.runnable)),
+   start(other.start),
+   minimum_waiting_time(other.minimum_waiting_time)
+{
+   other.dismissed = true;
+}
+
 template <typename Runnable>
 panda::DelayedAction<Runnable>::~DelayedAction()
 {
-- 
2.43.0


From 7ff4ac32cbb90c2b35cc930e653d02a8cc0d932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 25/40] fix: elimination on a system that became empty violated
 an assertion

---
 src/algorithm_fourier_motzkin_elimination.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index 648d961..3534e8b 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -351,7 +351,8 @@ namespace
       const auto d = matrix.back().size();
       auto R = initializeR<Bitset>(matrix, vertices);
       assert( d <= vertices.size() );
-      for ( std::size_t i = d; i < vertices.size(); ++i )
+      // a system without rows (of an empty polyhedron) remains without rows.
+      for ( std::size_t i = d; i < vertices.size() && !matrix.empty(); ++i )
       {
          const auto& vertex = vertices[i];
          auto action = makeDelayedAction([&]()
@@ -368,7 +369,7 @@ namespace
       const auto d = matrix.size();
       auto R = initializeR<Bitset>(matrix, vertices);
       assert( d <= vertices.size() );
-      for ( std::size_t i = d; i < vertices.size(); ++i )
+      for ( std::size_t i = d; i < vertices.size() && !matrix.empty(); ++i )
       {
          auto facets = extractFacets(matrix, vertices, i);
          detectBadRow(facets);
-- 
2.43.0


From f7f13a252396b5053e6f11b2711f9ab1884f2467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 26/40] fix: coefficients of maps overflowed silently when
 reduced by equations

---
 src/algorithm_map_operations.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 8bd791e..2490ed3 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -10,7 +10,10 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 #include "algorithm_integer_operations.h"
 #include "algorithm_row_operations.h"
@@ -119,6 +122,16 @@ namespace
       }
    }
 
+   /// The factors of a map are of a fixed width integer type, independent of the type of the rows.
+   Factor checkedFactor(const std::int64_t value)
+   {
+      if ( value < std::numeric_limits<Factor>::min() || value > std::numeric_limits<Factor>::max() )
+      {
+         throw std::overflow_error("A coefficient of a map that was reduced by equations is too large.");
+      }
+      return static_cast<Factor>(value);
+   }
+
    /// Use equation to get eliminated index back to zero. If the coefficient c of the eliminated
    /// index is not 1, the map is multiplied by |c| in order to stay integral. As images
    /// of inequalities are invariant under positive scaling, this is the same map.
@@ -136,7 +149,7 @@ namespace
          return;
       }
       const auto sign = (equation[index] < 0) ? -1 : 1;
-      const auto scale = sign * static_cast<Factor>(equation[index]);
+      const auto scale = sign * std::int64_t(static_cast<Factor>(equation[index]));
       for ( auto& image : map )
       {
          Image new_image;
@@ -148,13 +161,13 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -sign * term.second * static_cast<Factor>(equation[j])));
+                     new_image.push_back(std::make_pair(j, checkedFactor(-sign * std::int64_t(term.second) * static_cast<Factor>(equation[j]))));
                   }
                }
             }
             else
             {
-               new_image.push_back(std::make_pair(term.first, scale * term.second));
+               new_image.push_back(std::make_pair(term.first, checkedFactor(scale * term.second)));
             }
          }
          image = new_image;
@@ -174,7 +187,8 @@ namespace
          {
             if ( !new_image.empty() && new_image.back().first == term.first ) // same Index
             {
-               new_image.back().second += term.second; // merge factors
+               auto& factor = new_image.back().second;
+               factor = checkedFactor(std::int64_t(factor) + term.second); // merge factors
             }
             else
             {
-- 
2.43.0


From 733209baab5ca9244fe26844fe1c7a9667103ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 27/40] fix: right hand side 2147483648 was printed with the
 wrong sign

---
 src/algorithm_row_operations.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 228bb59..caf4f65 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
 #include <numeric>
 #include <stdexcept>
@@ -88,7 +89,8 @@ void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, co
          printed_something = true;
       }
    }
-   output << ' ' << relation << ' ' << algorithm::rhs(row);
+   // the negative value of the smallest integer is not representable by the type of the row.
+   output << ' ' << relation << ' ' << -static_cast<std::int64_t>(row.back());
 }
 
 template <typename Integer>
-- 
2.43.0


From 315f28647d7cd86a3160247f5dc5d31fc6aca6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 28/40] fix: illegal sort orders were accepted, some read
 beyond the end of the argument

---
 src/input_detection.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index 56d9eb6..8b5bfe4 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -166,20 +166,24 @@ namespace
       return words;
    }
 
-   bool ascending(char* argument) noexcept
+   /// Interprets the part of the argument following the criterion, e.g. "_asc" of "lex_asc".
+   bool ascending(const char* argument)
    {
-      return (std::strncmp(argument, "desc", 4) != 0 &&
-              std::strncmp(argument, "down", 4) != 0 &&
-              std::strncmp(argument, "dec", 3) != 0);
+      const std::string direction(argument);
+      if ( direction.empty() || direction == "_asc" || direction == "_ascending" || direction == "_up" )
+      {
+         return true;
+      }
+      if ( direction == "_desc" || direction == "_descending" || direction == "_down" || direction == "_dec" || direction == "_decreasing" )
+      {
+         return false;
+      }
+      throw std::invalid_argument("Invalid argument to option \"-s\" / \"--sorting=\".");
    }
 
-   InputOrder inputOrderLexicographic(char* argument) noexcept
+   InputOrder inputOrderLexicographic(const char* argument)
    {
-      if ( std::strcmp(argument, "lex") == 0 || std::strcmp(argument, "lexicographic") == 0 )
-      {
-         return InputOrder::LexicographicAscending;
-      }
-      const auto offset = (std::strncmp(argument, "lex_", 4) == 0) ? 4 : 14;
+      const auto offset = (std::strncmp(argument, "lexicographic", 13) == 0) ? 13 : 3;
       if ( ascending(argument + offset) )
       {
          return InputOrder::LexicographicAscending;
@@ -190,13 +194,9 @@ namespace
       }
    }
 
-   InputOrder inputOrderNonZeroEntries(char* argument) noexcept
+   InputOrder inputOrderNonZeroEntries(const char* argument)
    {
-      if ( std::strcmp(argument, "nz") == 0 || std::strcmp(argument, "nonzero") == 0 )
-      {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      const int offset = (std::strncmp(argument, "nz_", 3) == 0) ? 3 : 8;
+      const auto offset = (std::strncmp(argument, "nonzero", 7) == 0) ? 7 : 2;
       if ( ascending(argument + offset) )
       {
          return InputOrder::NonZeroEntriesAscending;
@@ -213,7 +213,7 @@ namespace
       {
          return inputOrderLexicographic(argument);
       }
-      if ( std::strncmp(argument, "n", 1) == 0 )
+      if ( std::strncmp(argument, "nz", 2) == 0 || std::strncmp(argument, "nonzero", 7) == 0 )
       {
          return inputOrderNonZeroEntries(argument);
       }
-- 
2.43.0


From ef3a664253642375a68b107833f9e0f2efa03aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:11 +0000
Subject: [PATCH 29/40] fix: variables right of the relation operator were read
 as if they were left of it

---
 src/input_constraint_named_variables.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..e461ebb 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -123,7 +123,7 @@ namespace
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
          }
          ieq[index] = coefficient;
-         if ( has_rhs )
+         if ( has_rhs || (relation != RelationOperator::Undecided && index + 1 < ieq.size()) )
          {
             const std::string message = ( index + 1 < ieq.size() )
                                         ? "No variables are allowed on the right hand side"
-- 
2.43.0


From 4a125ce30ce40a72e3e83516982e298d0d0f3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 30/40] fix: signs without a term were read as constants in
 images of maps

---
 src/input_map.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index 66ebce3..867e621 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -75,7 +75,13 @@ namespace
          var_start = token.find_first_not_of("0123456789", position + (starts_with_sign ? 1 : 0));
       }
       const auto count = var_start - position;
-      const auto factor = input::toInt(token.substr(position, count));
+      const auto factor_string = token.substr(position, count);
+      const auto has_name = (var_start < token.size() && token[var_start] != '+' && token[var_start] != '-');
+      if ( (factor_string == "+" || factor_string == "-") && !has_name )
+      {
+         throw std::invalid_argument("In \"" + token + "\" of a map, a sign is not followed by a term.");
+      }
+      const auto factor = input::toInt(factor_string);
       position = var_start;
       return factor;
    }
-- 
2.43.0


From 39aa87db1d27601092a99e6e0adff55bf1bab70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:52 +0000
Subject: [PATCH 31/40] fix: names declared twice were accepted although terms
 referred to the first one only

---
 src/input_names.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_names.cpp b/src/input_names.cpp
index 4697729..d916cff 100644
--- a/src/input_names.cpp
+++ b/src/input_names.cpp
@@ -6,6 +6,7 @@
 
 #include "input_names.h"
 
+#include <algorithm>
 #include <stdexcept>
 #include <string>
 
@@ -25,6 +26,10 @@ Names panda::input::implementation::names(std::istream& stream)
    for ( std::string name = peekWord(stream); stream && !isKeyword(name); name = peekWord(stream) )
    {
       stream >> name; // consume name (was only peeked)
+      if ( std::find(names.cbegin(), names.cend(), name) != names.cend() )
+      {
+         throw std::invalid_argument("Invalid input data: The name \"" + name + "\" is declared more than once.");
+      }
       names.push_back(name);
    }
    return names;
-- 
2.43.0


From 95a556b80c09b562b1389e82cb5e4adc7e864039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 32/40] fix: a sign at the end of a line was joined with the
 term on the next line

---
 src/input_constraint_named_variables.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index e461ebb..9c2e20a 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -103,6 +103,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("A sign must be followed by a term", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
-- 
2.43.0


From 8435f8a5af5319601b5ef084aa23a60216a102af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 33/40] fix: characters following the dimension were ignored
 and a missing dimension swallowed sections

---
 src/input_dimension.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/input_dimension.cpp b/src/input_dimension.cpp
index ac0773c..d5a109d 100644
--- a/src/input_dimension.cpp
+++ b/src/input_dimension.cpp
@@ -6,19 +6,27 @@
 
 #include "input_dimension.h"
 
+#include <istream>
+#include <sstream>
 #include <stdexcept>
+#include <string>
+
+#include "input_common.h"
+#include "input_keywords.h"
 
 using namespace panda;
 
 std::size_t panda::input::implementation::dimension(std::istream& stream)
 {
-   while ( stream && stream.peek() != '=' )
-   {
-      stream.get();
-   }
-   stream.get(); // consume '='
+   std::string keyword;
+   std::getline(stream >> std::ws, keyword, '=');
+   keyword.erase(keyword.find_last_not_of(" \t\r\n") + 1);
+   std::string argument;
+   std::getline(stream >> std::ws, argument);
+   argument = trimWhitespace(argument);
+   std::istringstream argument_stream(argument);
    std::size_t dim;
-   if ( !(stream >> dim) )
+   if ( !isKeywordDimension(keyword) || argument.find_first_not_of("0123456789") != std::string::npos || !(argument_stream >> dim) )
    {
       throw std::invalid_argument("Argument to field \"dimension\" is invalid.");
    }
-- 
2.43.0


From 8a8e1136e4090029e7088dfc2f1397eb8f0a2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 34/40] fix: files without any vertices or rays were accepted
 as known vertices

---
 src/input.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index f45d698..f78d968 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -403,23 +403,30 @@ namespace
       }
       Vertices<int> conv;
       Vertices<int> cone;
+      bool has_section = false;
       for ( std::string token; input::advanceToNextKeyword(file, token); )
       {
          if ( input::implementation::isKeywordConvexHull(token) )
          {
             checkNoRepetition(conv, token);
             conv = input::implementation::verticesConvex(file);
+            has_section = true;
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
             checkNoRepetition(cone, token);
             cone = input::implementation::verticesConical(file);
+            has_section = true;
          }
          else
          {
             std::getline(file, token);
          }
       }
+      if ( !has_section )
+      {
+         throw std::invalid_argument("Expected a section \"Vertices\" or \"Rays\" in a file containing known vertices.");
+      }
       conv.reserve(conv.size() + cone.size());
       conv.insert(conv.end(), cone.cbegin(), cone.cend());
       return conv;
-- 
2.43.0


From 5be09ed670f5a112f68cb836a42ce3e6a8ecbea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 35/40] fix: images of input rows and ranks overflowed silently
 while expanding and validating input

---
 src/input.cpp          | 50 ++++++++++++++++++++++-------
 src/input_validity.cpp | 73 +++++++++++++++++++++++++++---------------
 2 files changed, 86 insertions(+), 37 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index f78d968..b50366b 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -18,6 +18,8 @@
 #include "algorithm_map_operations.h"
 #include "algorithm_matrix_operations.h"
 #include "algorithm_row_operations.h"
+#include "big_integer.h"
+#include "cast.h"
 #include "input_common.h"
 #include "input_consistency.h"
 #include "input_constraint.h"
@@ -36,8 +38,30 @@ using namespace panda;
 namespace
 {
    void sort(int, char**, Matrix<int>&);
-   void expandInequalities(Matrix<int>&, const Maps&);
-   void expandVertices(Matrix<int>&, const Maps&);
+   #ifdef NO_FLEXIBILITY
+   using ExactMatrix = Matrix<int>;
+   const Matrix<int>& exact(const Matrix<int>& matrix)
+   {
+      return matrix;
+   }
+   const Matrix<int>& inputType(const Matrix<int>& matrix)
+   {
+      return matrix;
+   }
+   #else
+   /// Images of input data may not be representable in the type of the input data.
+   using ExactMatrix = Matrix<BigInteger>;
+   ExactMatrix exact(const Matrix<int>& matrix)
+   {
+      return cast<BigInteger>(matrix);
+   }
+   Matrix<int> inputType(const ExactMatrix& matrix)
+   {
+      return cast<int>(matrix);
+   }
+   #endif
+   void expandInequalities(ExactMatrix&, const Maps&);
+   void expandVertices(ExactMatrix&, const Maps&);
 
    std::string getFilenameKnownFacets(int, char**);
    std::string getFilenameKnownVertices(int, char**);
@@ -82,11 +106,13 @@ namespace
       {
          std::cerr << "Warning: validity of input vertices / rays cannot be verified for reduced input.\n";
       }
-      expandVertices(vertices, maps);
+      ExactMatrix exact_vertices = exact(vertices);
+      expandVertices(exact_vertices, maps);
+      vertices = inputType(exact_vertices);
    }
    /// Normalization of rows and maps requires linearly independent equations where each equation
    /// eliminates another variable. Equations provided by the user may be arbitrary.
-   Equations<int> normalForm(const Equations<int>& equations)
+   ExactMatrix normalForm(const ExactMatrix& equations)
    {
       if ( equations.empty() )
       {
@@ -119,13 +145,15 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto normal_form = normalForm(equations);
-      for ( auto& inequality : inequalities )
+      const ExactMatrix normal_form = normalForm(exact(equations));
+      ExactMatrix exact_inequalities = exact(inequalities);
+      for ( auto& inequality : exact_inequalities )
       {
          inequality = algorithm::normalize(inequality, normal_form);
       }
       const auto tmp_maps = algorithm::normalize(maps, normal_form);
-      expandInequalities(inequalities, tmp_maps);
+      expandInequalities(exact_inequalities, tmp_maps);
+      inequalities = inputType(exact_inequalities);
    }
 }
 
@@ -490,13 +518,13 @@ namespace
       }
    }
 
-   void expandInequalities(Matrix<int>& matrix, const Maps& maps)
+   void expandInequalities(ExactMatrix& matrix, const Maps& maps)
    {
       if ( maps.empty() )
       {
          throw std::invalid_argument("The system of inequalities cannot be a reduced system without any maps. Maps must be declared before the section of inequalities.");
       }
-      Matrix<int> all;
+      ExactMatrix all;
       for ( const auto& row : matrix )
       {
          const auto row_class = algorithm::getClass(row, maps, tag::facet{});
@@ -506,13 +534,13 @@ namespace
       matrix = std::move(all);
    }
 
-   void expandVertices(Matrix<int>& matrix, const Maps& maps)
+   void expandVertices(ExactMatrix& matrix, const Maps& maps)
    {
       if ( maps.empty() )
       {
          throw std::invalid_argument("The system of vertices / rays cannot be a reduced system without any maps. Maps must be declared before the section of vertices / rays.");
       }
-      Matrix<int> all;
+      ExactMatrix all;
       for ( const auto& row : matrix )
       {
          const auto row_class = algorithm::getClass(row, maps, tag::vertex{});
diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index c7ab366..328be3c 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -16,18 +16,37 @@
 #include "algorithm_map_operations.h"
 #include "algorithm_matrix_operations.h"
 #include "algorithm_row_operations.h"
+#include "big_integer.h"
+#include "cast.h"
 
 using namespace panda;
 
 namespace
 {
-   bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
-   void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
-   void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   #ifdef NO_FLEXIBILITY
+   using ExactInteger = int;
+   const Matrix<int>& exact(const Matrix<int>& matrix)
+   {
+      return matrix;
+   }
+   #else
+   /// Distances, ranks and images of input data may not be representable in the type of the input data.
+   using ExactInteger = BigInteger;
+   Matrix<ExactInteger> exact(const Matrix<int>& matrix)
+   {
+      return cast<ExactInteger>(matrix);
+   }
+   #endif
+   using ExactMatrix = Matrix<ExactInteger>;
+   using ExactRow = Row<ExactInteger>;
+
+   bool inequalityIsValid(const ExactMatrix&, const ExactRow&, const std::size_t);
+   void checkValidityOfInequality(const ExactMatrix&, const ExactRow&, const std::size_t);
+   void checkValidityOfVertex(const ExactMatrix&, const ExactRow&, const std::size_t);
    /// Returns the set of rows, each row being reduced by its greatest common divisor (as are images of maps).
-   Matrix<int> normalize(Matrix<int>);
-   void checkValidityInequalities(const Matrix<int>&, const Map&);
-   void checkValidityVertices(const Matrix<int>&, const Map&);
+   ExactMatrix normalize(ExactMatrix);
+   void checkValidityInequalities(const ExactMatrix&, const Map&);
+   void checkValidityVertices(const ExactMatrix&, const Map&);
 }
 
 /// Input is considered valid if and only if each inequality is facet-defining.
@@ -37,10 +56,11 @@ void panda::input::implementation::checkValidityOfInequalities(const Matrix<int>
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
-   for ( const auto& inequality : inequalities )
+   const ExactMatrix exact_matrix = exact(matrix);
+   const auto dimension = algorithm::dimension(exact_matrix);
+   for ( const auto& inequality : exact(inequalities) )
    {
-      ::checkValidityOfInequality(matrix, inequality, dimension);
+      ::checkValidityOfInequality(exact_matrix, inequality, dimension);
    }
 }
 
@@ -51,17 +71,18 @@ void panda::input::implementation::checkValidityOfVertices(const Matrix<int>& ma
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
-   for ( const auto& vertex : vertices )
+   const ExactMatrix exact_matrix = exact(matrix);
+   const auto dimension = algorithm::dimension(exact_matrix);
+   for ( const auto& vertex : exact(vertices) )
    {
-      ::checkValidityOfVertex(matrix, vertex, dimension);
+      ::checkValidityOfVertex(exact_matrix, vertex, dimension);
    }
 }
 
 /// Input is considered valid if and only if each map is a bijection on the set of inequalities.
 void panda::input::implementation::checkValidityOfInequalityClasses(const Inequalities<int>& inequalities, const Maps& maps)
 {
-   const auto rows = ::normalize(inequalities);
+   const auto rows = ::normalize(exact(inequalities));
    for ( const auto& map : maps )
    {
       checkValidityInequalities(rows, map);
@@ -71,7 +92,7 @@ void panda::input::implementation::checkValidityOfInequalityClasses(const Inequa
 /// Input is considered valid if and only if each map is a bijection on the set of vertices.
 void panda::input::implementation::checkValidityOfVertexClasses(const Vertices<int>& vertices, const Maps& maps)
 {
-   const auto rows = ::normalize(vertices);
+   const auto rows = ::normalize(exact(vertices));
    for ( const auto& map : maps )
    {
       checkValidityVertices(rows, map);
@@ -85,11 +106,11 @@ void panda::input::implementation::filterInvalidInequalities(const Matrix<int>&
    {
       return;
    }
-   const auto dimension = algorithm::dimension(matrix);
+   const ExactMatrix exact_matrix = exact(matrix);
+   const auto dimension = algorithm::dimension(exact_matrix);
    for ( auto it = inequalities.begin(); it != inequalities.end(); )
    {
-      const auto& inequality = *it;
-      if ( ::inequalityIsValid(matrix, inequality, dimension) )
+      if ( ::inequalityIsValid(exact_matrix, exact({*it}).front(), dimension) )
       {
          ++it;
       }
@@ -132,11 +153,11 @@ bool panda::input::filterInvalidInput(int argc, char** argv) noexcept
 
 namespace
 {
-   bool inequalityIsValid(const Matrix<int>& matrix, const Inequality<int>& inequality, const std::size_t dimension)
+   bool inequalityIsValid(const ExactMatrix& matrix, const ExactRow& inequality, const std::size_t dimension)
    {
       // identify vertices and rays that satisfy the inequality with equality
       // check if any distance is less than 0
-      Matrix<int> active;
+      ExactMatrix active;
       for ( const auto& row : matrix )
       {
          const auto dist = algorithm::distance(inequality, row);
@@ -153,11 +174,11 @@ namespace
       return !active.empty() && (algorithm::dimension(active) + 1 == dimension);
    }
 
-   void checkValidityOfInequality(const Matrix<int>& matrix, const Inequality<int>& inequality, const std::size_t dimension)
+   void checkValidityOfInequality(const ExactMatrix& matrix, const ExactRow& inequality, const std::size_t dimension)
    {
       // identify vertices and rays that satisfy the inequality with equality
       // check if any distance is less than 0
-      Matrix<int> active;
+      ExactMatrix active;
       for ( const auto& row : matrix )
       {
          const auto dist = algorithm::distance(inequality, row);
@@ -186,9 +207,9 @@ namespace
       }
    }
 
-   void checkValidityOfVertex(const Matrix<int>& matrix, const Vertex<int>& vertex, const std::size_t dimension)
+   void checkValidityOfVertex(const ExactMatrix& matrix, const ExactRow& vertex, const std::size_t dimension)
    {
-      Matrix<int> active;
+      ExactMatrix active;
       for ( const auto& row : matrix )
       {
          const auto dist = algorithm::distance(row, vertex);
@@ -217,7 +238,7 @@ namespace
       }
    }
 
-   Matrix<int> normalize(Matrix<int> matrix)
+   ExactMatrix normalize(ExactMatrix matrix)
    {
       for ( auto& row : matrix )
       {
@@ -232,7 +253,7 @@ namespace
       return matrix;
    }
 
-   void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
+   void checkValidityInequalities(const ExactMatrix& matrix, const Map& map)
    {
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
@@ -260,7 +281,7 @@ namespace
       }
    }
 
-   void checkValidityVertices(const Matrix<int>& matrix, const Map& map)
+   void checkValidityVertices(const ExactMatrix& matrix, const Map& map)
    {
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
-- 
2.43.0


From c00f7d4a2e9056b2f604740006521b90146b0185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 36/40] fix: strict inequalities tight at rays only were
 accepted as known facets by the validity check

---
 src/input_validity.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 328be3c..9d8e906 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -40,6 +40,8 @@ namespace
    using ExactMatrix = Matrix<ExactInteger>;
    using ExactRow = Row<ExactInteger>;
 
+   /// An inequality that is satisfied with equality by rays only does not define a face of the polyhedron.
+   bool containsOnlyRays(const ExactMatrix& active, const ExactMatrix& all);
    bool inequalityIsValid(const ExactMatrix&, const ExactRow&, const std::size_t);
    void checkValidityOfInequality(const ExactMatrix&, const ExactRow&, const std::size_t);
    void checkValidityOfVertex(const ExactMatrix&, const ExactRow&, const std::size_t);
@@ -153,6 +155,12 @@ bool panda::input::filterInvalidInput(int argc, char** argv) noexcept
 
 namespace
 {
+   bool containsOnlyRays(const ExactMatrix& active, const ExactMatrix& all)
+   {
+      const auto is_vertex = [](const ExactRow& row) { return row.back() != 0; };
+      return std::none_of(active.cbegin(), active.cend(), is_vertex) && std::any_of(all.cbegin(), all.cend(), is_vertex);
+   }
+
    bool inequalityIsValid(const ExactMatrix& matrix, const ExactRow& inequality, const std::size_t dimension)
    {
       // identify vertices and rays that satisfy the inequality with equality
@@ -193,7 +201,7 @@ namespace
             active.push_back(row);
          }
       }
-      if ( active.empty() )
+      if ( active.empty() || containsOnlyRays(active, matrix) )
       {
          std::stringstream stream;
          stream << "The inequality " << inequality << " is a valid inequality, but does not define a facet, as it is a strict inequality.";
-- 
2.43.0


From 3d66bc530842fabf07d652b226720d4243d94a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 37/40] fix: double description printed its result once per
 node of a distributed run

---
 src/method_double_description.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/method_double_description.cpp b/src/method_double_description.cpp
index cca519d..20e74c9 100644
--- a/src/method_double_description.cpp
+++ b/src/method_double_description.cpp
@@ -18,6 +18,7 @@
 #include "application_name.h"
 #include "input.h"
 #include "integer_type_selection.h"
+#include "message_passing_interface_session.h"
 
 using namespace panda;
 
@@ -42,6 +43,10 @@ template <>
 int panda::method::doubleDescription<OperationMode::FacetEnumeration>(int argc, char** argv)
 {
    assert( argc > 0 && argv != nullptr );
+   if ( !mpi::getSession().isMaster() )
+   {
+      return 0; // This method is not distributed, any further node would print the same description again.
+   }
    std::cerr << project::application_acronym << " -- facet enumeration with double description\n";
    return IntegerTypeSelector<FacetEnumerationDoubleDescription>::select(argc, argv);
 }
@@ -50,6 +55,10 @@ template <>
 int panda::method::doubleDescription<OperationMode::VertexEnumeration>(int argc, char** argv)
 {
    assert( argc > 0 && argv != nullptr );
+   if ( !mpi::getSession().isMaster() )
+   {
+      return 0; // This method is not distributed, any further node would print the same description again.
+   }
    std::cerr << project::application_acronym << " -- vertex enumeration with double description\n";
    return IntegerTypeSelector<VertexEnumerationDoubleDescription>::select(argc, argv);
 }
-- 
2.43.0


From 9e054f2defc1479eecbeabbc12d7d8a05563a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 38/40] fix: exceptions while adding known rows were swallowed
 and the rows lost silently

---
 src/method_adjacency_decomposition_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index e4fffc3..0647135 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -77,7 +77,7 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
          }
       });
    }
-   future.wait();
+   future.get(); // rethrows: a known row that cannot be printed must not get lost silently.
 }
 
 namespace
-- 
2.43.0


From 523bd110c056d80b48c9c23111e1f8a89fae9a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 39/40] fix: a distributed run hung when the root node failed

---
 src/message_passing_interface_session.cpp     | 11 +++++++++
 src/message_passing_interface_session.h       |  2 ++
 ...adjacency_decomposition_implementation.cpp | 24 ++++++++++++++++---
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/message_passing_interface_session.cpp b/src/message_passing_interface_session.cpp
index d554916..8e3d3af 100644
--- a/src/message_passing_interface_session.cpp
+++ b/src/message_passing_interface_session.cpp
@@ -7,6 +7,8 @@
 #include "message_passing_interface_session.h"
 
 #include <cassert>
+#include <cstdlib>
+#include <iostream>
 
 #ifdef MPI_SUPPORT
 #include "mpi_no_warnings.h"
@@ -47,6 +49,15 @@ int panda::mpi::Session::getNumberOfNodes() const noexcept
    #endif
 }
 
+void panda::mpi::Session::abort() const noexcept
+{
+   std::cout.flush();
+   #ifdef MPI_SUPPORT
+   MPI_Abort(MPI_COMM_WORLD, 1);
+   #endif
+   std::abort();
+}
+
 #pragma clang diagnostic pop
 
 panda::mpi::Session::Session() noexcept
diff --git a/src/message_passing_interface_session.h b/src/message_passing_interface_session.h
index 41a5cad..11d2ccd 100644
--- a/src/message_passing_interface_session.h
+++ b/src/message_passing_interface_session.h
@@ -24,6 +24,8 @@ namespace panda
             bool isMaster() const noexcept;
             /// Returns the number of nodes in the setup.
             int getNumberOfNodes() const noexcept;
+            /// Stops all nodes because of an error.
+            void abort() const noexcept;
             friend mpi::Session& mpi::getSession() noexcept;
          private:
             /// Constructor.
diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index 0647135..0b8db84 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <exception>
 #include <future>
 #include <iostream>
 #include <list>
@@ -28,6 +29,23 @@ using namespace panda;
 
 namespace
 {
+   /// The other nodes wait for the one that failed: all of them are stopped if there are any.
+   template <typename Callable>
+   auto stopAllNodesOnException(Callable&& callable) -> decltype(callable())
+   try
+   {
+      return callable();
+   }
+   catch ( const std::exception& e )
+   {
+      if ( mpi::getSession().getNumberOfNodes() > 1 )
+      {
+         std::cerr << "Exception caught: " << e.what() << '\n';
+         mpi::getSession().abort();
+      }
+      throw;
+   }
+
    template <typename Integer>
    std::pair<Equations<Integer>, Maps> reduce(const JobManager<Integer, tag::facet>&, const std::tuple<Matrix<Integer>, Names, Maps, Matrix<Integer>>& data);
 
@@ -56,11 +74,11 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
    const auto& names = std::get<1>(data);
    const auto& known_output = std::get<3>(data);
    JobManagerType<Integer, TagType> job_manager(names, node_count, thread_count);
-   const auto reduced_data = reduce(job_manager, data);
+   const auto reduced_data = stopAllNodesOnException([&]() { return reduce(job_manager, data); });
    const auto& equations = std::get<0>(reduced_data);
    const auto& maps = std::get<1>(reduced_data);
    std::list<JoiningThread> threads;
-   auto future = initializePool(job_manager, input, maps, known_output, equations);
+   auto future = stopAllNodesOnException([&]() { return initializePool(job_manager, input, maps, known_output, equations); });
    for ( int i = 0; i < thread_count; ++i )
    {
       threads.emplace_front([&]()
@@ -77,7 +95,7 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
          }
       });
    }
-   future.get(); // rethrows: a known row that cannot be printed must not get lost silently.
+   stopAllNodesOnException([&]() { future.get(); }); // rethrows: a known row that cannot be printed must not get lost silently.
 }
 
 namespace
-- 
2.43.0


From e68f4c8df6f9734c0ab51dfb532e0de4d9247433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:36 +0000
Subject: [PATCH 40/40] fix: elimination of a system of zero rows only accessed
 an empty matrix

---
 src/algorithm_fourier_motzkin_elimination.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index 3534e8b..53c5ac0 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -96,6 +96,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationOfCone(Matrix<Integer
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows of the input are zero
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
@@ -126,6 +130,10 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    matrix = transpose(matrix);
    std::sort(equation_indices.rbegin(), equation_indices.rend());
    const auto equations = extractEquations(matrix, equation_indices);
+   if ( matrix.empty() ) // all rows of the input are zero
+   {
+      return matrix;
+   }
    const auto zero_columns = eliminateZeroColumns(matrix, input);
    assert( std::is_sorted(used_indices.cbegin(), used_indices.cend()) );
    Vertices<Integer> used;
-- 
2.43.0

