From 49141a6fff075264d7d4adb41a04f1a5dedf59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 01/52] fix: wrap SiQAD coordinates into the next dimer row
 when the boundary ends on z = 0

siqad::coord_t::wrap killed the coordinate as soon as z left the aspect
ratio instead of wrapping z to zero and increasing y as documented, so
iterating a boundary with z = 0 stopped after the first row.
---
 include/fiction/layouts/coordinates.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/coordinates.hpp b/include/fiction/layouts/coordinates.hpp
index 25a60e7..e9feaea 100644
--- a/include/fiction/layouts/coordinates.hpp
+++ b/include/fiction/layouts/coordinates.hpp
@@ -671,7 +671,8 @@ struct coord_t
 
         if (z > aspect_ratio.z)
         {
-            *this = aspect_ratio.get_dead();
+            z = 0;
+            ++y;
         }
 
         if (y > aspect_ratio.y)
-- 
2.43.0


From 01c4a2b5181d4e46b84825dd7ced393b304a0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 02/52] fix: compare factorizations when ordering aspect ratio
 iterators with <=

operator<= returned true for any two iterators over the same number of
faces because the first disjunct already admitted equal numbers.
---
 include/fiction/algorithms/iter/aspect_ratio_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 778079b..5094cc2 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -117,7 +117,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num <= other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && *it <= *(other.it));
     }
 
   private:
-- 
2.43.0


From e18e86e2257a1f25725e7be83fa4760aad07b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 03/52] fix: let copies of an aspect ratio iterator iterate
 over their own factors

The iterator kept a vector iterator into its own vector of factors, so a
copy (and hence the result of a postfix increment) still pointed into the
original, which is invalidated as soon as the original moves on.
---
 .../algorithms/iter/aspect_ratio_iterator.hpp | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
index 5094cc2..aaf5f47 100644
--- a/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
+++ b/include/fiction/algorithms/iter/aspect_ratio_iterator.hpp
@@ -6,6 +6,7 @@
 #define FICTION_ASPECT_RATIO_ITERATOR_HPP
 
 #include <cmath>
+#include <cstddef>
 #include <cstdint>
 #include <iterator>
 #include <vector>
@@ -48,10 +49,10 @@ class aspect_ratio_iterator
      */
     aspect_ratio_iterator& operator++() noexcept
     {
-        ++it;
+        ++pos;
 
         // end of factors: compute next ones
-        if (it == factors.end())
+        if (pos == factors.size())
         {
             next();
         }
@@ -77,7 +78,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] AspectRatio operator*() const
     {
-        return *it;
+        return factors[pos];
     }
 
     [[nodiscard]] bool operator==(const uint64_t m) const noexcept
@@ -87,7 +88,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator==(const aspect_ratio_iterator& other) const
     {
-        return (num == other.num) && (*it == *(other.it));
+        return (num == other.num) && (*(*this) == *other);
     }
 
     [[nodiscard]] bool operator!=(const uint64_t m) const noexcept
@@ -107,7 +108,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it < *(other.it));
+        return (num < other.num) || (num == other.num && *(*this) < *other);
     }
 
     [[nodiscard]] bool operator<=(const uint64_t m) const noexcept
@@ -117,7 +118,7 @@ class aspect_ratio_iterator
 
     [[nodiscard]] bool operator<=(const aspect_ratio_iterator& other) const
     {
-        return (num < other.num) || (num == other.num && *it <= *(other.it));
+        return (num < other.num) || (num == other.num && *(*this) <= *other);
     }
 
   private:
@@ -130,9 +131,10 @@ class aspect_ratio_iterator
      */
     std::vector<AspectRatio> factors;
     /**
-     * Iterator pointing to current factor.
+     * Position of the current factor. An index rather than an iterator, so that copies do not refer to the vector they
+     * were copied from.
      */
-    typename std::vector<AspectRatio>::iterator it;
+    std::size_t pos{};
 
     /**
      * Factorizes the current `num` into all possible factors \f$(x, y)\f$ with \f$x \cdot y = num\f$. The result is
@@ -158,7 +160,7 @@ class aspect_ratio_iterator
         }
 
         // let it point to the first element of the sequence
-        it = factors.begin();
+        pos = 0;
     }
     /**
      * Computes the next possible `num` where a factorization \f$(x, y)\f$ with \f$x \cdot y = num\f$ exists.
-- 
2.43.0


From 7d9324bdd9f2d83e4573146c8ed774c8863f8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 04/52] fix: order Gray code iterators by their position

operator< and operator<= compared the Gray codes, which are not monotone in
the position, so a < b disagreed with b - a > 0 and with the comparisons
against integers.
---
 include/fiction/algorithms/iter/gray_code_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/iter/gray_code_iterator.hpp b/include/fiction/algorithms/iter/gray_code_iterator.hpp
index a60260a..b08608b 100644
--- a/include/fiction/algorithms/iter/gray_code_iterator.hpp
+++ b/include/fiction/algorithms/iter/gray_code_iterator.hpp
@@ -85,7 +85,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code < other.current_gray_code;
+        return current_iteration < other.current_iteration;
     }
     /**
      * Less-than or equal-to comparison operator. Compares the current iterator with another iterator.
@@ -95,7 +95,7 @@ class gray_code_iterator
      */
     [[nodiscard]] constexpr bool operator<=(const gray_code_iterator& other) const noexcept
     {
-        return current_gray_code <= other.current_gray_code;
+        return current_iteration <= other.current_iteration;
     }
     /**
      * Subtraction operator to calculate the difference between two gray_code_iterators.
-- 
2.43.0


From 5bd8c5b2f792d4e2ea03bd93c7f9ec4cb3d1a686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 05/52] fix: give each simulated annealing thread its own
 random generator

multi_simulated_annealing runs several instances of simulated_annealing
concurrently, which all advanced one unsynchronized static generator.
---
 .../fiction/algorithms/optimization/simulated_annealing.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/optimization/simulated_annealing.hpp b/include/fiction/algorithms/optimization/simulated_annealing.hpp
index bc21ea8..9c489d4 100644
--- a/include/fiction/algorithms/optimization/simulated_annealing.hpp
+++ b/include/fiction/algorithms/optimization/simulated_annealing.hpp
@@ -85,9 +85,9 @@ simulated_annealing(const State& init_state, const double init_temp, const doubl
     assert(std::isfinite(init_temp) && "init_temp must be a finite number");
     assert(std::isfinite(final_temp) && "final_temp must be a finite number");
 
-    static std::mt19937_64 generator{std::random_device{}()};
+    static thread_local std::mt19937_64 generator{std::random_device{}()};
 
-    static std::uniform_real_distribution<double> random_functor(0, 1);
+    static thread_local std::uniform_real_distribution<double> random_functor(0, 1);
 
     auto current_cost  = cost(init_state);
     auto current_state = init_state;
-- 
2.43.0


From 17cc335d8868e26ddb8b614d42bad59e6515f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 06/52] fix: compute binomial coefficients without overflowing
 intermediate values

The product was formed before the division, which overflowed for
coefficients that fit 64 bits, e.g., C(64, 32), and 2 * k wrapped around
for large k.
---
 include/fiction/utils/math_utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index 0a01af6..ff1ace7 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <numeric>
 #include <stdexcept>
 #include <type_traits>
 #include <vector>
@@ -65,14 +66,17 @@ template <std::integral T>
 
     uint64_t result = 1;
 
-    if (2 * k > n)
+    if (k > n - k)
     {
         k = n - k;
     }
 
     for (uint64_t i = 1; i <= k; i++)
     {
-        result = result * (n + 1 - i) / i;
+        // cancel before multiplying so that no intermediate value exceeds the next coefficient
+        const auto g = std::gcd(result, i);
+
+        result = (result / g) * ((n + 1 - i) / (i / g));
     }
 
     return result;
-- 
2.43.0


From b1b7362965e1fa89758adb6605599c652d12f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 07/52] fix: do not lose precision when rounding integers to
 decimal places

---
 include/fiction/utils/math_utils.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/math_utils.hpp b/include/fiction/utils/math_utils.hpp
index ff1ace7..1b38fc2 100644
--- a/include/fiction/utils/math_utils.hpp
+++ b/include/fiction/utils/math_utils.hpp
@@ -30,8 +30,16 @@ template <typename T>
     requires std::integral<T> || std::floating_point<T>
 [[nodiscard]] inline T round_to_n_decimal_places(const T number, const uint64_t n) noexcept
 {
-    const auto factor = std::pow(10.0, static_cast<double>(n));
-    return static_cast<T>(std::round(static_cast<double>(number) * factor) / factor);
+    if constexpr (std::integral<T>)
+    {
+        // integers have no decimal places, and a detour via double would lose precision
+        return number;
+    }
+    else
+    {
+        const auto factor = std::pow(10.0, static_cast<double>(n));
+        return static_cast<T>(std::round(static_cast<double>(number) * factor) / factor);
+    }
 }
 /**
  * Takes the absolute value of an integral number if it is signed, and otherwise computes the identity. This avoids a
-- 
2.43.0


From 3be2861f9d5fad4bad63ef0baf024997e2d4611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 08/52] fix: let find_first_two_of accept ranges with fewer
 than two elements

---
 include/fiction/utils/stl_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index 8b94e88..b050328 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -39,9 +39,9 @@ namespace fiction
 template <std::random_access_iterator InputIt, std::random_access_iterator ForwardIt>
 InputIt find_first_two_of(InputIt first, InputIt last, ForwardIt s_first, ForwardIt s_last) noexcept
 {
-    for (; first != last - 1; ++first)
+    for (; last - first > 1; ++first)
     {
-        for (ForwardIt it = s_first; it != s_last - 1; ++it)
+        for (ForwardIt it = s_first; s_last - it > 1; ++it)
         {
             if (*first == *it && *(first + 1) == *(it + 1))
             {
-- 
2.43.0


From 46595ff2466d3ad73ce0828a266d318337001b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 09/52] fix: keep the requested number of clocks when
 2DDWaveHex falls back to 2DDWave

---
 include/fiction/layouts/clocking_scheme.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/layouts/clocking_scheme.hpp b/include/fiction/layouts/clocking_scheme.hpp
index 90c5296..cc34041 100644
--- a/include/fiction/layouts/clocking_scheme.hpp
+++ b/include/fiction/layouts/clocking_scheme.hpp
@@ -532,11 +532,11 @@ static auto twoddwave_hex_clocking(const num_clks& n = num_clks::FOUR) noexcept
         }
 
         // not a supported hexagonal orientation; fall back to regular 2DDWave clocking
-        return twoddwave_clocking<Lyt>();
+        return twoddwave_clocking<Lyt>(n);
     }
     else  // not a hexagonal layout; fall back to regular 2DDWave clocking
     {
-        return twoddwave_clocking<Lyt>();
+        return twoddwave_clocking<Lyt>(n);
     }
 }
 /**
-- 
2.43.0


From 4b818dce551d8eba05f561fa13f21fef3e12ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 10/52] fix: clone the clocking scheme of a clocked layout
 instead of sharing it

---
 include/fiction/layouts/clocked_layout.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/layouts/clocked_layout.hpp b/include/fiction/layouts/clocked_layout.hpp
index ff9b406..db3ac13 100644
--- a/include/fiction/layouts/clocked_layout.hpp
+++ b/include/fiction/layouts/clocked_layout.hpp
@@ -113,7 +113,7 @@ class clocked_layout : public CoordinateLayout
     [[nodiscard]] clocked_layout clone() const noexcept
     {
         auto copy = clocked_layout(CoordinateLayout::clone());
-        copy.strg = std::make_shared<clocked_layout_storage>(*strg);
+        copy.strg = std::make_shared<clocked_layout_storage>(*strg->clocking);
 
         return copy;
     }
-- 
2.43.0


From cb316bb59403de02bb5cf57b35de4703d6a3a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 11/52] fix: keep the fan-out counter of a node from
 underflowing into its dead flag

---
 include/fiction/layouts/gate_level_layout.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 819d04b..2422ce8 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -736,7 +736,7 @@ class gate_level_layout : public ClockedLayout
         // n's children
         auto& children = strg->nodes[n].children;
         // decrease ref-count of children
-        std::ranges::for_each(children, [this](const auto& c) { strg->nodes[get_node(c.index)].data[0].h1--; });
+        std::ranges::for_each(children, [this](const auto& c) { decr_fanout_count(get_node(c.index)); });
         // clear n's children
         children.clear();
 
@@ -778,6 +778,8 @@ class gate_level_layout : public ClockedLayout
         if (!is_constant(n))
         {
             strg->nodes[n].children.push_back(s);
+            // increase ref-count to child
+            strg->nodes[get_node(s)].data[0].h1++;
         }
 
         return make_signal(n);
@@ -1795,6 +1797,20 @@ class gate_level_layout : public ClockedLayout
             strg->nodes[n].data[0].h1 &= ~UINT32_C(0x80000000);
         }
     }
+    /**
+     * Decreases the internal fan-out counter of a node without touching the MSB that marks it as dead. A node that has
+     * been placed on a tile after signals to that tile were created does not count them. Hence, its counter might
+     * already be 0.
+     *
+     * @param n Node whose fan-out counter is to be decreased.
+     */
+    void decr_fanout_count(const node n)
+    {
+        if ((strg->nodes[n].data[0].h1 & ~UINT32_C(0x80000000)) != 0)
+        {
+            strg->nodes[n].data[0].h1--;
+        }
+    }
 
     /**
      * Creates a new node with the given `children` and cached truth table `literal`, assigns it to tile `t`, and
-- 
2.43.0


From b5ab208ccd22139cb35fa7fe52d9286ae9e0f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 12/52] fix: keep primary outputs that are placed on or moved
 to occupied tiles

---
 include/fiction/layouts/gate_level_layout.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 2422ce8..ff54425 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -272,9 +272,9 @@ class gate_level_layout : public ClockedLayout
         const auto n = static_cast<node>(strg->nodes.size());
         strg->nodes.emplace_back();     // empty node data
         strg->nodes[n].data[1].h1 = 2;  // assign identity function
+        assign_node(t, n);  // might clear a previous PO from t
         strg->outputs.emplace_back(static_cast<signal>(t));
         strg->data.node_names[n] = name.empty() ? fmt::format("po{}", num_pos()) : name;
-        assign_node(t, n);
 
         /* increase ref-count to child */
         strg->nodes[get_node(s)].data[0].h1++;
@@ -745,6 +745,8 @@ class gate_level_layout : public ClockedLayout
         {
             if (!t.is_dead())
             {
+                // clear t first so that its previous occupant does not take n's PO mark along
+                clear_tile(t);
                 // if n lived on a tile that was marked as PO, update it with the new tile t
                 std::ranges::replace(strg->outputs, static_cast<signal>(old_t), static_cast<signal>(t));
             }
-- 
2.43.0


From d188d60401fe20d33e6565a3b0c5e66f77bf72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 13/52] fix: count crossings of wires and gates regardless of
 the order of their placement

---
 include/fiction/layouts/gate_level_layout.hpp | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index ff54425..8b0d2f8 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -833,6 +833,19 @@ class gate_level_layout : public ClockedLayout
                 else  // decrease gate count
                 {
                     strg->data.num_gates--;
+
+                    // decrease crossing count for wires that crossed this gate
+                    if (ClockedLayout::is_crossing_layer(t) && is_wire_tile(ClockedLayout::below(t)))
+                    {
+                        strg->data.num_crossings--;
+                    }
+
+                    if (ClockedLayout::is_ground_layer(t) &&
+                        ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
+                        is_wire_tile(ClockedLayout::above(t)))
+                    {
+                        strg->data.num_crossings--;
+                    }
                 }
             }
             // mark node as dead
@@ -1780,6 +1793,18 @@ class gate_level_layout : public ClockedLayout
             else  // is gate
             {
                 strg->data.num_gates++;
+
+                // wires that cross this gate
+                if (ClockedLayout::is_crossing_layer(t) && is_wire_tile(ClockedLayout::below(t)))
+                {
+                    strg->data.num_crossings++;
+                }
+
+                if (ClockedLayout::is_ground_layer(t) && ClockedLayout::is_crossing_layer(ClockedLayout::above(t)) &&
+                    is_wire_tile(ClockedLayout::above(t)))
+                {
+                    strg->data.num_crossings++;
+                }
             }
         }
     }
-- 
2.43.0


From ae6cd6afcfe7ec6504d95f97d89c5ec0c26a1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 14/52] fix: initialize gate-level layouts that are constructed
 from clocked layouts

---
 include/fiction/layouts/gate_level_layout.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index 8b0d2f8..d068fea 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -220,6 +220,8 @@ class gate_level_layout : public ClockedLayout
             evnts{std::make_shared<typename event_storage::element_type>()}
     {
         static_assert(is_clocked_layout_v<ClockedLayout>, "ClockedLayout is not a clocked layout type");
+
+        initialize_truth_table_cache();
     }
     /**
      * Clones the layout returning a deep copy.
-- 
2.43.0


From 86f99dd387caa8f08cf089f87a1d25277ac5e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 15/52] fix: make the Boolean evaluation of gate-level layout
 nodes compile and agree with truth tables

---
 include/fiction/layouts/gate_level_layout.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/gate_level_layout.hpp b/include/fiction/layouts/gate_level_layout.hpp
index d068fea..60b2ce4 100644
--- a/include/fiction/layouts/gate_level_layout.hpp
+++ b/include/fiction/layouts/gate_level_layout.hpp
@@ -1295,13 +1295,12 @@ class gate_level_layout : public ClockedLayout
     mockturtle::iterates_over_t<Iterator, bool> compute(const node n, Iterator begin, Iterator end) const
     {
         uint32_t index{0};
-        while (begin != end)
+        for (uint32_t i = 0; begin != end; ++i)
         {
-            index <<= 1u;
-            index ^= *begin++ ? 1 : 0;
+            index |= static_cast<uint32_t>(*begin++ ? 1 : 0) << i;
         }
 
-        return kitty::get_bit(strg->data.cache[strg->nodes[n].data[1].h1], index);
+        return kitty::get_bit(strg->data.fn_cache[strg->nodes[n].data[1].h1], index);
     }
 
     template <typename Iterator>
-- 
2.43.0


From f137f70f0e5e8549995fcba8c970b733fb8e9354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 16/52] fix: recompute the full extent when a bounding box is
 updated

Sizes went stale when a layout had become empty, and on SiQAD coordinates the
box of a defect surface mixed rows and sublattices of different coordinates.
---
 include/fiction/layouts/bounding_box.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fiction/layouts/bounding_box.hpp b/include/fiction/layouts/bounding_box.hpp
index ae0d22b..49d6c19 100644
--- a/include/fiction/layouts/bounding_box.hpp
+++ b/include/fiction/layouts/bounding_box.hpp
@@ -49,8 +49,10 @@ class bounding_box_2d
      */
     void update_bounding_box()
     {
-        min = {0, 0, 0};
-        max = {0, 0, 0};
+        min    = {0, 0, 0};
+        max    = {0, 0, 0};
+        x_size = 0;
+        y_size = 0;
 
         // empty layouts don't need further computation
         if (layout.is_empty())
@@ -116,8 +118,8 @@ class bounding_box_2d
                                            { update_min_max(min_defect, max_defect, defect.first); });
 
                 // Adjust min and max based on defects
-                min = {std::min(min.x, min_defect.x), std::min(min.y, min_defect.y), std::min(min.z, min_defect.z)};
-                max = {std::max(max.x, max_defect.x), std::max(max.y, max_defect.y), std::max(max.z, max_defect.z)};
+                min = min_defect;
+                max = max_defect;
             }
         }
         else
-- 
2.43.0


From e3770286b71bcf14d1669e6f047a962e9d279f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 17/52] fix: a moved SiDB defect replaces the defect at its
 target and survives a move onto itself

---
 include/fiction/technology/sidb_defect_surface.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/fiction/technology/sidb_defect_surface.hpp b/include/fiction/technology/sidb_defect_surface.hpp
index 1840cfe..67ac6ec 100644
--- a/include/fiction/technology/sidb_defect_surface.hpp
+++ b/include/fiction/technology/sidb_defect_surface.hpp
@@ -154,10 +154,8 @@ class sidb_defect_surface<Lyt, false> : public Lyt
     {
         if (const auto defect = get_sidb_defect(source); defect.type != sidb_defect_type::NONE)
         {
-            strg->defective_coordinates.insert({target, defect});
-
-            // delete defect at the old coordinate
             strg->defective_coordinates.erase(source);
+            strg->defective_coordinates.insert_or_assign(target, defect);
         }
     }
     /**
-- 
2.43.0


From 6ec13d18e259c6095f9ba603507b9f1d7f37306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 18/52] fix: normalizing a cell-level layout keeps layers and
 defects

All cells were placed in the ground layer, which made SiQAD sublattices and
crossing layers collapse, defects were dropped, and empty layouts were not
handled.
---
 include/fiction/utils/layout_utils.hpp | 64 ++++++++++++++++++++------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/include/fiction/utils/layout_utils.hpp b/include/fiction/utils/layout_utils.hpp
index f79da4b..658615c 100644
--- a/include/fiction/utils/layout_utils.hpp
+++ b/include/fiction/utils/layout_utils.hpp
@@ -263,18 +263,35 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     auto x_offset = std::numeric_limits<decltype(lyt.x())>::max();
     auto y_offset = std::numeric_limits<decltype(lyt.y())>::max();
 
-    lyt.foreach_cell(
-        [&x_offset, &y_offset](const auto& c)
+    const auto update_offsets = [&x_offset, &y_offset](const auto& c)
+    {
+        if (c.y < y_offset)
         {
-            if (c.y < y_offset)
-            {
-                y_offset = c.y;
-            }
-            if (c.x < x_offset)
-            {
-                x_offset = c.x;
-            }
-        });
+            y_offset = c.y;
+        }
+        if (c.x < x_offset)
+        {
+            x_offset = c.x;
+        }
+    };
+
+    bool is_occupied = !lyt.is_empty();
+
+    lyt.foreach_cell(update_offsets);
+
+    if constexpr (is_sidb_defect_surface_v<Lyt>)
+    {
+        is_occupied = is_occupied || lyt.num_defects() > 0;
+
+        lyt.foreach_sidb_defect([&update_offsets](const auto& cd) { update_offsets(cd.first); });
+    }
+
+    // without any cells or defects, there is nothing to shift
+    if (!is_occupied)
+    {
+        x_offset = 0;
+        y_offset = 0;
+    }
 
     Lyt lyt_new{};
 
@@ -291,11 +308,18 @@ Lyt normalize_layout_coordinates(const Lyt& lyt) noexcept
     lyt.foreach_cell(
         [&lyt_new, &lyt, &x_offset, &y_offset](const auto& c)
         {
-            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset}, lyt.get_cell_type(c));
-            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset}, lyt.get_cell_mode(c));
-            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset}, lyt.get_cell_name(c));
+            lyt_new.assign_cell_type({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_type(c));
+            lyt_new.assign_cell_mode({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_mode(c));
+            lyt_new.assign_cell_name({c.x - x_offset, c.y - y_offset, c.z}, lyt.get_cell_name(c));
         });
 
+    if constexpr (is_sidb_defect_surface_v<Lyt>)
+    {
+        lyt.foreach_sidb_defect(
+            [&lyt_new, &x_offset, &y_offset](const auto& cd)
+            { lyt_new.assign_sidb_defect({cd.first.x - x_offset, cd.first.y - y_offset, cd.first.z}, cd.second); });
+    }
+
     return lyt_new;
 }
 /**
@@ -435,6 +459,18 @@ template <typename LytDest, typename LytSrc>
             return true;  // keep looping
         });
 
+    if constexpr (is_sidb_defect_surface_v<LytSrc>)
+    {
+        lyt.foreach_sidb_defect(
+            [&are_cells_assigned_to_negative_coordinates](const auto& cd)
+            {
+                if (cd.first.x < 0 || cd.first.y < 0)
+                {
+                    are_cells_assigned_to_negative_coordinates = true;
+                }
+            });
+    }
+
     if (are_cells_assigned_to_negative_coordinates && has_offset_ucoord_v<LytDest>)
     {
         return convert_layout_to_fiction_coordinates<LytDest>(normalize_layout_coordinates(lyt));
-- 
2.43.0


From 045f03a513a37d1ab19a2b038901e489ff4016dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 19/52] fix: type aliases named for a coordinate system or
 surface refer to it

---
 include/fiction/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fiction/types.hpp b/include/fiction/types.hpp
index 951e53e..7c2b565 100644
--- a/include/fiction/types.hpp
+++ b/include/fiction/types.hpp
@@ -278,7 +278,7 @@ using sidb_111_cell_clk_lyt     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_l
 using sidb_111_cell_clk_lyt_ptr = std::shared_ptr<sidb_111_cell_clk_lyt>;
 
 using sidb_111_cell_clk_lyt_siqad     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_lyt_siqad>;
-using sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt>;
+using sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_siqad>;
 
 using sidb_111_cell_clk_lyt_cube     = sidb_lattice<sidb_111_lattice, sidb_cell_clk_lyt_cube>;
 using sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_cube>;
@@ -292,7 +292,7 @@ using cds_sidb_cell_clk_lyt_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt>;
 using cds_sidb_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_cell_clk_lyt_siqad>;
 using cds_sidb_cell_clk_lyt_siqad_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt_siqad>;
 
-using cds_sidb_cell_clk_lyt_cube     = charge_distribution_surface<sidb_cell_clk_lyt_siqad>;
+using cds_sidb_cell_clk_lyt_cube     = charge_distribution_surface<sidb_cell_clk_lyt_cube>;
 using cds_sidb_cell_clk_lyt_cube_ptr = std::shared_ptr<cds_sidb_cell_clk_lyt_cube>;
 
 using cds_sidb_100_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_100_cell_clk_lyt_siqad>;
@@ -305,10 +305,10 @@ using cds_sidb_111_cell_clk_lyt     = charge_distribution_surface<sidb_111_cell_
 using cds_sidb_111_cell_clk_lyt_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt>;
 
 using cds_sidb_111_cell_clk_lyt_siqad     = charge_distribution_surface<sidb_111_cell_clk_lyt_siqad>;
-using cds_sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_siqad>;
+using cds_sidb_111_cell_clk_lyt_siqad_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt_siqad>;
 
 using cds_sidb_111_cell_clk_lyt_cube     = charge_distribution_surface<sidb_111_cell_clk_lyt_cube>;
-using cds_sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<sidb_111_cell_clk_lyt_cube>;
+using cds_sidb_111_cell_clk_lyt_cube_ptr = std::shared_ptr<cds_sidb_111_cell_clk_lyt_cube>;
 
 using sidb_defect_cell_clk_lyt     = sidb_defect_surface<sidb_cell_clk_lyt>;
 using sidb_defect_cell_clk_lyt_ptr = std::shared_ptr<sidb_defect_cell_clk_lyt>;
-- 
2.43.0


From c5f27839021945679284fe46536ee233c0be9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 20/52] fix: index distance maps by all three coordinates

The dense distance map allocated one entry per tile of the ground layer but
enumerated all layers, writing out of bounds on layouts with more than one
layer, and looked up coordinates without their z value.
---
 .../algorithms/path_finding/distance_map.hpp  | 55 ++++++++++++-------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/distance_map.hpp b/include/fiction/algorithms/path_finding/distance_map.hpp
index 563acb4..a20d6aa 100644
--- a/include/fiction/algorithms/path_finding/distance_map.hpp
+++ b/include/fiction/algorithms/path_finding/distance_map.hpp
@@ -21,8 +21,9 @@ namespace fiction
 /**
  * A distance map is a two-dimensional array of distances between coordinates. The distance map is accessed via the
  * indices of the coordinates in the associated layout. A coordinate index \f$i\f$ is calculated as follows:
- * \f$i = y \cdot W + x\f$, with \f$W\f$ being the width of the layout. As an example, in a layout of size
- * \f$3 \times 3\f$, the coordinate index of the coordinate \f$(2, 1)\f$ has index \f$1 \cdot 3 + 2 = 5\f$.
+ * \f$i = (z \cdot H + y) \cdot W + x\f$, with \f$W\f$ and \f$H\f$ being the width and height of the layout. As an
+ * example, in a layout of size \f$3 \times 3\f$, the coordinate index of the coordinate \f$(2, 1)\f$ has index
+ * \f$1 \cdot 3 + 2 = 5\f$.
  *
  * The `distance_map` is to be preferred over the `sparse_distance_map` in most cases when performance is the main goal.
  */
@@ -37,6 +38,27 @@ using distance_map = std::vector<std::vector<Dist>>;
  */
 template <typename Lyt, typename Dist>
 using sparse_distance_map = phmap::parallel_flat_hash_map<std::pair<coordinate<Lyt>, coordinate<Lyt>>, Dist>;
+namespace detail
+{
+
+/**
+ * This function calculates the index of a given coordinate in the distance map of a given layout.
+ *
+ * @tparam Lyt Coordinate layout type.
+ * @param lyt Layout.
+ * @param c Coordinate.
+ * @return Coordinate index.
+ */
+template <typename Lyt>
+[[nodiscard]] constexpr std::size_t distance_map_index(const Lyt& lyt, const coordinate<Lyt>& c) noexcept
+{
+    return (((static_cast<std::size_t>(c.z) * (static_cast<std::size_t>(lyt.y()) + 1)) + static_cast<std::size_t>(c.y)) *
+            (static_cast<std::size_t>(lyt.x()) + 1)) +
+           static_cast<std::size_t>(c.x);
+}
+
+}  // namespace detail
+
 /**
  * This function fully initializes a `distance_map` for a given layout and distance functor. It computes the distances
  * between all pairs of coordinates in the layout and stores them in the distance map for quick subsequent access.
@@ -57,14 +79,19 @@ template <typename Lyt, typename Dist>
     static_assert(is_coordinate_layout_v<Lyt>, "Lyt is not a coordinate layout");
 
     // initialize distance map
-    distance_map<Dist> dist_map(lyt.area(), std::vector<Dist>(lyt.area(), Dist{}));
+    const auto num_coordinates = (static_cast<std::size_t>(lyt.x()) + 1) * (static_cast<std::size_t>(lyt.y()) + 1) *
+                                 (static_cast<std::size_t>(lyt.z()) + 1);
+
+    distance_map<Dist> dist_map(num_coordinates, std::vector<Dist>(num_coordinates, Dist{}));
 
     // compute distances and store them via coordinate index
     lyt.foreach_coordinate(
-        [&lyt, &dist_fn, &dist_map](const auto& c1, const unsigned src)
+        [&lyt, &dist_fn, &dist_map](const auto& c1)
         {
-            lyt.foreach_coordinate([&lyt, &dist_fn, &dist_map, &c1, src](const auto& c2, const unsigned tgt)
-                                   { dist_map[src][tgt] = dist_fn(lyt, c1, c2); });
+            auto& distances = dist_map[detail::distance_map_index(lyt, c1)];
+
+            lyt.foreach_coordinate([&lyt, &dist_fn, &distances, &c1](const auto& c2)
+                                   { distances[detail::distance_map_index(lyt, c2)] = dist_fn(lyt, c1, c2); });
         });
 
     return dist_map;
@@ -138,7 +165,8 @@ class distance_map_functor : public distance_functor<Lyt, Dist>
     [[nodiscard]] Dist operator()(const Lyt& lyt, const coordinate<Lyt>& source,
                                   const coordinate<Lyt>& target) const override
     {
-        return static_cast<Dist>(dist_map.at(coordinate_index(lyt, source)).at(coordinate_index(lyt, target)));
+        return static_cast<Dist>(
+            dist_map.at(detail::distance_map_index(lyt, source)).at(detail::distance_map_index(lyt, target)));
     }
 
   protected:
@@ -146,19 +174,6 @@ class distance_map_functor : public distance_functor<Lyt, Dist>
      * Distance map.
      */
     const distance_map<Dist> dist_map;
-
-  private:
-    /**
-     * This function calculates the coordinate index of a given coordinate in a given layout.
-     *
-     * @param lyt Layout.
-     * @param c Coordinate.
-     * @return Coordinate index.
-     */
-    [[nodiscard]] static constexpr std::size_t coordinate_index(const Lyt& lyt, const coordinate<Lyt>& c) noexcept
-    {
-        return (c.y * (lyt.x() + 1)) + c.x;
-    }
 };
 /**
  * A distance functor that uses a fully precomputed `sparse_distance_map` to determine distances between coordinates. It
-- 
2.43.0


From 798bc602725f1997c7924d6f05ab304a97cfcf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 21/52] fix: do not overestimate distances on non-Cartesian
 layouts in path finding

In hexagonal and shifted Cartesian layouts, one step can change both x and y.
The Manhattan distance is no admissible heuristic there: a_star_distance was
not minimal and the paths found by default were not the shortest ones.
---
 include/fiction/algorithms/path_finding/a_star.hpp   |  2 +-
 include/fiction/algorithms/path_finding/distance.hpp | 12 ++++++++++++
 .../algorithms/path_finding/k_shortest_paths.hpp     |  7 ++++---
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 8080766..18ab6d2 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -398,7 +398,7 @@ class a_star_impl
 template <typename Path, typename Lyt, typename Dist = uint64_t, typename Cost = uint8_t>
     requires is_coordinate_layout_v<Lyt>
 [[nodiscard]] Path a_star(const Lyt& layout, const routing_objective<Lyt>& objective,
-                          const distance_functor<Lyt, Dist>& dist_fn = manhattan_distance_functor<Lyt, uint64_t>(),
+                          const distance_functor<Lyt, Dist>& dist_fn = admissible_distance_functor<Lyt, uint64_t>(),
                           const cost_functor<Lyt, Cost>&     cost_fn = unit_cost_functor<Lyt, uint8_t>(),
                           const a_star_params&               params  = {}) noexcept
 {
diff --git a/include/fiction/algorithms/path_finding/distance.hpp b/include/fiction/algorithms/path_finding/distance.hpp
index d6682fa..f4027cd 100644
--- a/include/fiction/algorithms/path_finding/distance.hpp
+++ b/include/fiction/algorithms/path_finding/distance.hpp
@@ -13,6 +13,7 @@
 #include <cstdint>
 #include <functional>
 #include <limits>
+#include <type_traits>
 
 namespace fiction
 {
@@ -246,6 +247,17 @@ class chebyshev_distance_functor : public distance_functor<Lyt, Dist>
   public:
     chebyshev_distance_functor() : distance_functor<Lyt, Dist>(&chebyshev_distance<Lyt, Dist>) {}
 };
+/**
+ * A pre-defined distance functor that never overestimates the number of steps between two coordinates of the given
+ * layout type. In Cartesian layouts, this is the Manhattan distance. In all other layouts, i.e., hexagonal and shifted
+ * Cartesian ones, a single step can change both the x- and the y-coordinate. Thus, the Chebyshev distance is used.
+ *
+ * @tparam Lyt Coordinate layout type.
+ * @tparam Dist Integral distance type.
+ */
+template <typename Lyt, typename Dist = uint64_t>
+using admissible_distance_functor = std::conditional_t<is_cartesian_layout_v<Lyt>, manhattan_distance_functor<Lyt, Dist>,
+                                                       chebyshev_distance_functor<Lyt, Dist>>;
 
 }  // namespace fiction
 
diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index c1385ea..2d79d79 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -50,7 +50,7 @@ class yen_k_shortest_paths_impl
     {
         // start by determining the shortest path between source and target
         k_shortest_paths.push_back(
-            a_star<Path>(layout, objective, manhattan_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
+            a_star<Path>(layout, objective, admissible_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
                          unit_cost_functor<obstruction_layout<Lyt>, uint8_t>(), params.astar_params));
     }
 
@@ -118,7 +118,7 @@ class yen_k_shortest_paths_impl
                 // find an alternative path from the spur coordinate to the target and check that it is not empty
                 if (const auto spur_path =
                         a_star<Path>(layout, {spur, objective.target},
-                                     manhattan_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
+                                     admissible_distance_functor<obstruction_layout<Lyt>, uint64_t>(),
                                      unit_cost_functor<obstruction_layout<Lyt>, uint8_t>(), params.astar_params);
                     !spur_path.empty())
                 {
@@ -232,7 +232,8 @@ class yen_k_shortest_paths_impl
  * \f$k\f$ is larger than the number of possible paths from source to target, the size of the returned path collection
  * will be smaller than \f$k\f$.
  *
- * This implementation uses the A* algorithm with the Manhattan distance function internally.
+ * This implementation uses the A* algorithm internally with the Manhattan distance function on Cartesian layouts and the
+ * Chebyshev distance function on all others.
  *
  * This function automatically detects whether the given layout implements a clocking interface (see `clocked_layout`)
  * and respects the underlying information flow imposed by `layout`'s clocking scheme. This algorithm does neither
-- 
2.43.0


From a3ef55cf7917bfc83f872f58c1898317f1714e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 22/52] fix: keep the A* frontier ordered when a coordinate is
 reached at lower cost

The f-value of a coordinate in the open list was lowered in place without
restoring the heap, such that coordinates were expanded too late and the path
found was not always the shortest one.
---
 include/fiction/algorithms/path_finding/a_star.hpp | 3 ++-
 include/fiction/utils/stl_utils.hpp                | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/path_finding/a_star.hpp b/include/fiction/algorithms/path_finding/a_star.hpp
index 18ab6d2..6d9b195 100644
--- a/include/fiction/algorithms/path_finding/a_star.hpp
+++ b/include/fiction/algorithms/path_finding/a_star.hpp
@@ -260,8 +260,9 @@ class a_star_impl
             // if successor is contained in the open list (frontier)
             if (it != open_list.end())
             {
-                // update its f-value
+                // update its f-value, which can only have become lower, and move it up in the queue
                 it->f = f;
+                open_list.raised(it);
             }
             else
             {
diff --git a/include/fiction/utils/stl_utils.hpp b/include/fiction/utils/stl_utils.hpp
index b050328..c96e7ea 100644
--- a/include/fiction/utils/stl_utils.hpp
+++ b/include/fiction/utils/stl_utils.hpp
@@ -113,6 +113,15 @@ class searchable_priority_queue : public std::priority_queue<T, Container, Compa
     {
         return std::ranges::find(*this, val);
     }
+    /**
+     * Restores the order of the queue after the priority of a single stored value was raised in place.
+     *
+     * @param it Iterator to the value whose priority was raised.
+     */
+    void raised(const iterator it) noexcept
+    {
+        std::push_heap(this->c.begin(), it + 1, this->comp);
+    }
     /**
      * Returns `true` if the provided value is stored in the queue and `false` otherwise.
      *
-- 
2.43.0


From 919d2dab86392d4a655b370db53dca6b0e95c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 23/52] fix: enumerate no path when asked for the 0 shortest
 ones

---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 2d79d79..5cebb8c 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -68,7 +68,7 @@ class yen_k_shortest_paths_impl
                "Both source and target coordinate have to be within the layout bounds");
 
         // if there was no path to begin with, abort
-        if (k_shortest_paths.back().empty())
+        if (num_shortest_paths == 0 || k_shortest_paths.back().empty())
         {
             return {};
         }
-- 
2.43.0


From 4a59c8fa1df717f67fdabdec7a8e9a0cc0e0acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 24/52] fix: do not miss paths in Yen's algorithm

Connections of earlier paths were blocked if these paths shared the root path
but left it via another coordinate than the current spur. Thus, fewer and
longer paths were found than there are.
---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 5cebb8c..93d1c0e 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -90,9 +90,9 @@ class yen_k_shortest_paths_impl
                 // for all previous paths
                 for (const auto& p : k_shortest_paths)
                 {
-                    // if the root path is equal to a previous partial path
+                    // if the root path including the spur coordinate is equal to a previous partial path
                     // p[i] and p[i + 1] are accessed below, so p must hold at least i + 2 coordinates
-                    if (p.size() > static_cast<std::size_t>(i) + 1 &&
+                    if (p.size() > static_cast<std::size_t>(i) + 1 && p[i] == spur &&
                         std::ranges::equal(root_path.cbegin(), root_path.cend(), p.cbegin(), p.cbegin() + i))
                     {
                         // block the connection that was already used in the previous shortest path
-- 
2.43.0


From 66139f78d0a45c3a88944a47eab7a2a75e373fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 25/52] fix: leave the obstructions of the given layout alone
 in Yen's algorithm

The obstructions are shared with the given layout. If the source coordinate
was obstructed, its obstruction was removed with the temporary ones.
---
 include/fiction/algorithms/path_finding/k_shortest_paths.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
index 93d1c0e..83078f5 100644
--- a/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
+++ b/include/fiction/algorithms/path_finding/k_shortest_paths.hpp
@@ -106,7 +106,7 @@ class yen_k_shortest_paths_impl
                 for (const auto& root : root_path)
                 {
                     // ... that are not the spur
-                    if (root != spur)
+                    if (root != spur && !layout.is_obstructed_coordinate(root))
                     {
                         // block them from further exploration
                         layout.obstruct_coordinate(root);
-- 
2.43.0


From fee9b692c30a782d6d847040c96e23c1ac93c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 26/52] fix: keep outputs that are driven by virtual PIs when
 deleting those

---
 .../network_transformation/delete_virtual_pis.hpp      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index 9dd9dcf..fd35321 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -127,7 +127,15 @@ class delete_virtual_pis_impl
         ntk.foreach_po(
             [this, &ntk_dest, &old2new](const auto& po)
             {
-                const auto tgt_signal = old2new[ntk.get_node(po)];
+                auto pn = ntk.get_node(po);
+
+                // map outputs that are driven by virtual PIs to the corresponding real PIs
+                if (ntk.is_virtual_pi(pn))
+                {
+                    pn = ntk.get_real_pi(pn);
+                }
+
+                const auto tgt_signal = old2new[pn];
                 const auto tgt_po     = ntk.is_complemented(po) ? ntk_dest.create_not(tgt_signal) : tgt_signal;
 
                 ntk_dest.create_po(tgt_po);
-- 
2.43.0


From 8138b87c7eab2709244406b97e494ab41acc6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 27/52] fix: truth tables of less-than-or-equal and
 greater-than-or-equal

---
 include/fiction/utils/truth_table_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/utils/truth_table_utils.hpp b/include/fiction/utils/truth_table_utils.hpp
index 1ec2733..406df2a 100644
--- a/include/fiction/utils/truth_table_utils.hpp
+++ b/include/fiction/utils/truth_table_utils.hpp
@@ -166,7 +166,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_le_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x11;
+    constexpr const uint64_t lit = 0xb;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
@@ -180,7 +180,7 @@ namespace fiction
  */
 [[nodiscard]] inline kitty::dynamic_truth_table create_ge_tt() noexcept
 {
-    constexpr const uint64_t lit = 0x13;
+    constexpr const uint64_t lit = 0xd;
 
     kitty::dynamic_truth_table table{2};
     kitty::create_from_words(table, &lit, &lit + 1);
-- 
2.43.0


From 22d48ad479ebde2172cf54ec41520dd51d8e67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 28/52] fix: bfs_topo_view lost gates that read the same fanin
 multiple times

---
 include/fiction/networks/views/bfs_topo_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/networks/views/bfs_topo_view.hpp b/include/fiction/networks/views/bfs_topo_view.hpp
index ced2421..c10cd1c 100644
--- a/include/fiction/networks/views/bfs_topo_view.hpp
+++ b/include/fiction/networks/views/bfs_topo_view.hpp
@@ -16,6 +16,7 @@
 #include <iterator>
 #include <queue>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 namespace fiction
@@ -209,8 +210,10 @@ class bfs_topo_view<Ntk, false> : public mockturtle::immutable_view<Ntk>
         fanout_ntk.foreach_node(
             [&](auto n)
             {
-                unvisited_fanin_count[n] = 0;
-                fanout_ntk.foreach_fanin(n, [&](const auto& /*f*/) { ++unvisited_fanin_count[n]; });
+                // a node is listed only once as a fanout even if it reads the same fanin multiple times
+                std::unordered_set<node> fanins{};
+                fanout_ntk.foreach_fanin(n, [&](const auto& f) { fanins.insert(fanout_ntk.get_node(f)); });
+                unvisited_fanin_count[n] = static_cast<uint32_t>(fanins.size());
             });
 
         fanout_ntk.foreach_ci(
-- 
2.43.0


From 1bb3c02cf5af57ad7d3d58bf5c6d5633ddf6cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 29/52] fix: static_depth_view::level threw for nodes that feed
 no output

---
 include/fiction/networks/views/static_depth_view.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fiction/networks/views/static_depth_view.hpp b/include/fiction/networks/views/static_depth_view.hpp
index 0473156..2f3b32c 100644
--- a/include/fiction/networks/views/static_depth_view.hpp
+++ b/include/fiction/networks/views/static_depth_view.hpp
@@ -261,7 +261,10 @@ class static_depth_view<Ntk, NodeCostFn, false> : public Ntk
      */
     uint32_t level(node const& n) const
     {
-        return levels.at(n);
+        const auto it = levels.find(n);
+
+        // nodes that are not in the transitive fan-in of any output are never visited
+        return it == levels.cend() ? 0u : it->second;
     }
 
     /**
-- 
2.43.0


From 461580c500699986eea668142560e78275252101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 30/52] fix: mutable_rank_view::update_ranks kept the old width

---
 include/fiction/networks/views/mutable_rank_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/networks/views/mutable_rank_view.hpp b/include/fiction/networks/views/mutable_rank_view.hpp
index 852b27d..06a3c86 100644
--- a/include/fiction/networks/views/mutable_rank_view.hpp
+++ b/include/fiction/networks/views/mutable_rank_view.hpp
@@ -546,6 +546,7 @@ class mutable_rank_view<Ntk, false> : public fiction::static_depth_view<Ntk>
         rank_pos.rehash(this->size());
         ranks.clear();
         ranks.resize(this->depth() + 1);
+        max_rank_width = 0;
         init_ranks();
     }
 
-- 
2.43.0


From 040fb1117edf654082843e1cfbce48b1824da9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 31/52] fix: substitute_po_signals did not count the outputs'
 references to the new buffers

---
 include/fiction/networks/technology_network.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/networks/technology_network.hpp b/include/fiction/networks/technology_network.hpp
index 7f75b10..a1a7518 100644
--- a/include/fiction/networks/technology_network.hpp
+++ b/include/fiction/networks/technology_network.hpp
@@ -393,6 +393,8 @@ class technology_network : public mockturtle::klut_network
                     const auto b = create_buf(po);
                     // bend PO signal to point to the new node
                     _storage->outputs[index] = b;
+                    // increase its ref-count
+                    _storage->nodes[b].data[0].h1++;
                 }
             });
     }
-- 
2.43.0


From 1e510f0b00f7e106f0deff5ab9e1807541637c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 32/52] fix: delete_virtual_pis shifted the names of inputs
 that follow virtual ones

---
 .../delete_virtual_pis.hpp                     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
index fd35321..5cf99f3 100644
--- a/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
+++ b/include/fiction/algorithms/network_transformation/delete_virtual_pis.hpp
@@ -142,7 +142,23 @@ class delete_virtual_pis_impl
             });
 
         // restore signal names if applicable
-        restore_names(ntk, ntk_dest, old2new);
+        restore_network_name(ntk, ntk_dest);
+        restore_output_names(ntk, ntk_dest);
+        restore_signal_names(ntk, ntk_dest, old2new);
+
+        // virtual PIs have no counterpart in the new network so that input positions cannot be used to restore names
+        if constexpr (mockturtle::has_has_name_v<Ntk> && mockturtle::has_get_name_v<Ntk> &&
+                      mockturtle::has_set_name_v<Ntk>)
+        {
+            ntk.foreach_pi(
+                [this, &ntk_dest, &old2new](const auto& pi)
+                {
+                    if (const auto pi_signal = ntk.make_signal(pi); ntk.is_real_pi(pi) && ntk.has_name(pi_signal))
+                    {
+                        ntk_dest.set_name(old2new[pi], ntk.get_name(pi_signal));
+                    }
+                });
+        }
 
         return ntk_dest;
     }
-- 
2.43.0


From 6000a3f09c2a663fb07ea451a9f3df1d9252af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 33/52] fix: fanout_substitution overloaded fanouts read
 multiple times by the same gate

---
 .../fanout_substitution.hpp                      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index d9b2ede..0a6c795 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -145,7 +145,7 @@ class fanout_substitution_impl
                                            // constants do not need fanout trees
                                            if (!ntk_topo.is_constant(fn))
                                            {
-                                               child = get_fanout(substituted, fn, child);
+                                               child = get_fanout(substituted, fn, child, children);
                                            }
 
                                            children.push_back(child);
@@ -255,9 +255,17 @@ class fanout_substitution_impl
     }
 
     mockturtle::signal<NtkDest> get_fanout(const NtkDest& substituted, const mockturtle::node<NtkSrc>& n,
-                                           mockturtle::signal<NtkDest>& child)
+                                           mockturtle::signal<NtkDest>&                    child,
+                                           const std::vector<mockturtle::signal<NtkDest>>& pending = {})
     {
-        if (substituted.fanout_size(substituted.get_node(child)) >= ps.threshold)
+        // signals that are already assigned to the gate to be created are not part of the network's fanout sizes yet
+        const auto num_fanouts = [&substituted, &pending](const auto& s)
+        {
+            return static_cast<std::size_t>(substituted.fanout_size(substituted.get_node(s))) +
+                   static_cast<std::size_t>(std::ranges::count(pending, s));
+        };
+
+        if (num_fanouts(child) >= ps.threshold)
         {
             if (auto fanouts = available_fanouts[n]; !fanouts.empty())
             {
@@ -265,7 +273,7 @@ class fanout_substitution_impl
                 while (true)
                 {
                     child = fanouts.front();
-                    if (substituted.fanout_size(substituted.get_node(child)) >= ps.degree)
+                    if (num_fanouts(child) >= ps.degree)
                     {
                         fanouts.pop();
                     }
-- 
2.43.0


From 7c4f9f73658f21910610eda6e6a8c920512cc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 34/52] fix: convert_network dropped gates that the target
 network type cannot represent as nodes

---
 .../network_conversion.hpp                    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/fiction/algorithms/network_transformation/network_conversion.hpp b/include/fiction/algorithms/network_transformation/network_conversion.hpp
index e2e54b7..fd12365 100644
--- a/include/fiction/algorithms/network_transformation/network_conversion.hpp
+++ b/include/fiction/algorithms/network_transformation/network_conversion.hpp
@@ -8,12 +8,14 @@
 #include "fiction/traits.hpp"
 #include "fiction/utils/name_utils.hpp"
 
+#include <kitty/bit_operations.hpp>
 #include <mockturtle/algorithms/cleanup.hpp>
 #include <mockturtle/traits.hpp>
 #include <mockturtle/utils/node_map.hpp>
 #include <mockturtle/views/topo_view.hpp>
 
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
 #include <type_traits>
 #include <vector>
@@ -160,6 +162,32 @@ class convert_network_impl<NtkDest, NtkSrc, false>
                     old2new[g] = ntk_dest.create_node(children, ntk.node_function(g));
                     return true;
                 }
+                else if constexpr (mockturtle::has_node_function_v<TopoNtkSrc>)
+                {
+                    // NtkDest cannot represent arbitrary functions as nodes: build the sum of their minterms
+                    const auto function = ntk.node_function(g);
+
+                    auto sum = ntk_dest.get_constant(false);
+                    for (uint64_t minterm = 0; minterm < function.num_bits(); ++minterm)
+                    {
+                        if (kitty::get_bit(function, minterm) == 0)
+                        {
+                            continue;
+                        }
+
+                        auto product = ntk_dest.get_constant(true);
+                        for (std::size_t v = 0; v < children.size(); ++v)
+                        {
+                            const auto literal = ((minterm >> v) & 1u) != 0 ? children[v] : ntk_dest.create_not(children[v]);
+                            product            = ntk_dest.create_and(product, literal);
+                        }
+
+                        sum = ntk_dest.create_or(sum, product);
+                    }
+
+                    old2new[g] = sum;
+                    return true;
+                }
 
                 return true;
             });
-- 
2.43.0


From 4b99607c95e33edb892b609cd8ec395c5a35f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:14 +0000
Subject: [PATCH 35/52] fix: let gates that read one signal several times do so
 via separate fan-outs

---
 .../network_transformation/fanout_substitution.hpp         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
index 0a6c795..cc745ef 100644
--- a/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
+++ b/include/fiction/algorithms/network_transformation/fanout_substitution.hpp
@@ -146,6 +146,13 @@ class fanout_substitution_impl
                                            if (!ntk_topo.is_constant(fn))
                                            {
                                                child = get_fanout(substituted, fn, child, children);
+
+                                               // a node that reads one signal several times has to do so via separate
+                                               // connections
+                                               if (std::ranges::find(children, child) != children.cend())
+                                               {
+                                                   child = substituted.create_buf(child);
+                                               }
                                            }
 
                                            children.push_back(child);
-- 
2.43.0


From a9e731055ad5af6a6873cffa066d080d51c841b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 36/52] fix: graph_oriented_layout_design lost inputs that no
 output depends on

---
 .../physical_design/graph_oriented_layout_design.hpp   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index ea67f70..8e39c55 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -2222,6 +2222,16 @@ class graph_oriented_layout_design_impl
                     }
                 });
 
+            // PIs that no output depends on are not part of every topological order, but have to be placed nonetheless
+            network.foreach_pi(
+                [&nodes_to_place](const auto& n)
+                {
+                    if (std::ranges::find(nodes_to_place, n) == nodes_to_place.cend())
+                    {
+                        nodes_to_place.push_back(n);
+                    }
+                });
+
             network.foreach_co([&nodes_to_place, &network](const auto& f)
                                { nodes_to_place.push_back(network.get_node(f)); });
         };
-- 
2.43.0


From e2dba36a044119dbc19118a27bf99a622f23f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 37/52] fix: keep inverters straight that drive outputs via
 wires in graph_oriented_layout_design

---
 .../graph_oriented_layout_design.hpp                | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
index 8e39c55..0c2b27a 100644
--- a/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
+++ b/include/fiction/algorithms/physical_design/graph_oriented_layout_design.hpp
@@ -2067,8 +2067,17 @@ class graph_oriented_layout_design_impl
                     layout.foreach_po(
                         [&layout, &apply_plo](const auto& gate)
                         {
-                            if (const auto coord = layout.get_tile(layout.get_node(gate));
-                                layout.is_inv(layout.get_node(layout.incoming_data_flow(coord).front())))
+                            const auto po_tile = layout.get_tile(layout.get_node(gate));
+
+                            // find the node that drives the PO, possibly via wire segments
+                            auto driver = layout.get_node(layout.incoming_data_flow(po_tile).front());
+                            while (layout.is_wire(driver) && !layout.is_pi(driver) && layout.fanout_size(driver) == 1)
+                            {
+                                driver =
+                                    layout.get_node(layout.incoming_data_flow(layout.get_tile(driver)).front());
+                            }
+
+                            if (layout.is_inv(driver))
                             {
                                 apply_plo = false;
                             }
-- 
2.43.0


From 753e719e70ec741be24f6eaa1ada2a4db97440a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 38/52] fix: post_layout_optimization merged the connections of
 gates that read one fanout twice

---
 .../algorithms/physical_design/post_layout_optimization.hpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index a8719d6..3d1c319 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -919,7 +919,10 @@ class post_layout_optimization_impl
             if (!(!fanins.empty() && new_path_from_fanin_1_to_gate.empty()) &&
                 !(fanins.size() == 2 && new_path_from_fanin_2_to_gate.empty()) &&
                 !(!fanouts.empty() && new_path_from_gate_to_fanout_1.empty()) &&
-                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_2.empty()))
+                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_2.empty()) &&
+                // a gate that reads one fanout twice needs two separate connections to it
+                !(fanins.size() == 2 && new_path_from_fanin_1_to_gate == new_path_from_fanin_2_to_gate) &&
+                !(fanouts.size() == 2 && new_path_from_gate_to_fanout_1 == new_path_from_gate_to_fanout_2))
             {
                 for (const auto& path : {new_path_from_fanin_1_to_gate, new_path_from_fanin_2_to_gate,
                                          new_path_from_gate_to_fanout_1, new_path_from_gate_to_fanout_2})
-- 
2.43.0


From c7f172a117518a09e4dd639ccaafee948a13302a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:00 +0000
Subject: [PATCH 39/52] fix: post_layout_optimization overwrote inputs when
 moving outputs to the border

---
 .../algorithms/physical_design/post_layout_optimization.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 3d1c319..bf27c58 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -253,7 +253,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last row and move them one row down
     for (uint64_t x = 0; x < lyt.x(); ++x)
     {
-        if (lyt.is_po_tile({x, lyt.y() - 1, 0}))
+        if (lyt.is_po_tile({x, lyt.y() - 1, 0}) && lyt.is_empty_tile({x, lyt.y(), 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
@@ -276,7 +276,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // check for misplaced POs in second last column and move them one column to the right
     for (uint64_t y = 0; y < lyt.y(); ++y)
     {
-        if (lyt.is_po_tile({lyt.x() - 1, y, 0}))
+        if (lyt.is_po_tile({lyt.x() - 1, y, 0}) && lyt.is_empty_tile({lyt.x(), y, 0}))
         {
             // get fanin signal of the PO
             std::vector<mockturtle::signal<Lyt>> signals{};
-- 
2.43.0


From 14aa8c30d66a4a6d4fb21c95f322b3d76b60b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 40/52] fix: post_layout_optimization enlarged layouts whose
 last row or column hosts unread inputs

---
 .../physical_design/post_layout_optimization.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index bf27c58..1803307 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -304,8 +304,20 @@ void optimize_output_positions(Lyt& lyt) noexcept
     // with a single PO)
     if (lyt.is_po_tile({lyt.x(), lyt.y(), 0}) && (lyt.num_pos() == 1))
     {
+        // the PO's column or row only vanishes if it does not host anything else, e.g., PIs without fanout
+        bool empty_column = true;
+        for (uint64_t y = 0; y < lyt.y(); ++y)
+        {
+            empty_column = empty_column && lyt.is_empty_tile({lyt.x(), y, 0});
+        }
+        bool empty_row = true;
+        for (uint64_t x = 0; x < lyt.x(); ++x)
+        {
+            empty_row = empty_row && lyt.is_empty_tile({x, lyt.y(), 0});
+        }
+
         // check if relocation would save tiles
-        if (lyt.has_western_incoming_signal({lyt.x(), lyt.y(), 0}) &&
+        if (empty_column && lyt.has_western_incoming_signal({lyt.x(), lyt.y(), 0}) &&
             ((lyt.x() * (lyt.y() + 2)) < ((lyt.x() + 1) * (lyt.y() + 1))))
         {
             // get fanin signal of the PO
@@ -321,7 +333,7 @@ void optimize_output_positions(Lyt& lyt) noexcept
             lyt.move_node(lyt.get_node({lyt.x(), lyt.y() - 1}), {lyt.x() - 1, lyt.y(), 0}, signals);
         }
         // check if relocation would save tiles
-        else if (lyt.has_northern_incoming_signal({lyt.x(), lyt.y(), 0}) &&
+        else if (empty_row && lyt.has_northern_incoming_signal({lyt.x(), lyt.y(), 0}) &&
                  (((lyt.x() + 2) * lyt.y()) < ((lyt.x() + 1) * (lyt.y() + 1))))
         {
             // get fanin signal of the PO
-- 
2.43.0


From dd2d346abb283eedef7265599b8f9acbf1a6993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 41/52] fix: orthogonal exchanged the operands of asymmetric
 gates

---
 .../algorithms/physical_design/orthogonal.hpp  | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/fiction/algorithms/physical_design/orthogonal.hpp b/include/fiction/algorithms/physical_design/orthogonal.hpp
index 1cea472..47f809b 100644
--- a/include/fiction/algorithms/physical_design/orthogonal.hpp
+++ b/include/fiction/algorithms/physical_design/orthogonal.hpp
@@ -330,15 +330,20 @@ mockturtle::signal<Lyt> wire_south(Lyt& lyt, const tile<Lyt>& src, const tile<Ly
 template <typename Lyt, typename Ntk>
 mockturtle::signal<Lyt> connect_and_place(Lyt& lyt, const tile<Lyt>& t, const Ntk& ntk, const mockturtle::node<Ntk>& n,
                                           tile<Lyt> pre1_t, tile<Lyt> pre2_t,
-                                          const std::optional<bool>& c = std::nullopt)
+                                          const std::optional<bool>& c = std::nullopt, bool swapped = false)
 {
     // make sure pre1_t is the northwards tile and pre2_t is the westwards one
     if (pre2_t < pre1_t)
     {
         std::swap(pre1_t, pre2_t);
+        swapped = !swapped;
     }
 
-    return place(lyt, t, ntk, n, wire_south(lyt, pre1_t, t), wire_east(lyt, pre2_t, t), c);
+    const auto north = wire_south(lyt, pre1_t, t);
+    const auto west  = wire_east(lyt, pre2_t, t);
+
+    // restore the order of the fanins because n's function might not be symmetric
+    return swapped ? place(lyt, t, ntk, n, west, north, c) : place(lyt, t, ntk, n, north, west, c);
 }
 
 template <typename Lyt, typename Ntk>
@@ -564,6 +569,9 @@ class orthogonal_impl
 
                         tile<Lyt> t{};
 
+                        // keep track of the order of the fanins
+                        bool swapped = false;
+
                         // n is colored east
                         if (const auto clr = ctn.color_ntk.color(n); clr == ctn.color_east)
                         {
@@ -571,6 +579,7 @@ class orthogonal_impl
                             if (pre2_t.y < pre1_t.y)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger y position of predecessors
@@ -588,6 +597,7 @@ class orthogonal_impl
                             if (pre2_t.x > pre1_t.x)
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             // use larger x position of predecessors
@@ -606,6 +616,7 @@ class orthogonal_impl
                                 !layout.is_empty_tile(layout.south(pre2_t)))
                             {
                                 std::swap(pre1_t, pre2_t);
+                                swapped = true;
                             }
 
                             t = latest_pos;
@@ -618,7 +629,8 @@ class orthogonal_impl
                             ++latest_pos.y;
                         }
 
-                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin);
+                        node2pos[n] = connect_and_place(layout, t, ctn.color_ntk, n, pre1_t, pre2_t, fc.constant_fanin,
+                                                        swapped);
                     }
 
                     if (ctn.color_ntk.is_po(n) &&
-- 
2.43.0


From 9967972ab5b89bc3a8a7f2a24bdea27b6d258bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 42/52] fix: post_layout_optimization exchanged the operands of
 asymmetric gates

---
 .../post_layout_optimization.hpp              | 79 +++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
index 1803307..532d052 100644
--- a/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
+++ b/include/fiction/algorithms/physical_design/post_layout_optimization.hpp
@@ -413,6 +413,80 @@ void check_and_optimize_po_positions(Lyt& lyt, uint64_t& moved_gates) noexcept
     const auto bounding_box = bounding_box_2d(lyt);
     lyt.resize({bounding_box.get_max().x, bounding_box.get_max().y, lyt.z()});
 }
+/**
+ * Determines the gate, fanout, or PI that drives a given tile by following wire segments against the data flow.
+ *
+ * @tparam Lyt Cartesian gate-level layout type.
+ * @param lyt Gate-level layout.
+ * @param t Tile to start from.
+ * @return Node that drives `t`; `t`'s own node if it is not a wire segment.
+ */
+template <typename Lyt>
+[[nodiscard]] mockturtle::node<Lyt> get_driver(const Lyt& lyt, tile<Lyt> t) noexcept
+{
+    while (lyt.is_wire_tile(t) && lyt.fanout_size(lyt.get_node(t)) == 1 && !lyt.is_pi_tile(t))
+    {
+        const auto sources = lyt.incoming_data_flow(t);
+        if (sources.empty())
+        {
+            break;
+        }
+        t = sources.front();
+    }
+
+    return lyt.get_node(t);
+}
+/**
+ * Determines the drivers of all nodes with two fanins in the order of the fanins.
+ *
+ * @tparam Lyt Cartesian gate-level layout type.
+ * @param lyt Gate-level layout.
+ * @return List of nodes with two fanins and their two drivers.
+ */
+template <typename Lyt>
+[[nodiscard]] std::vector<std::pair<mockturtle::node<Lyt>, std::vector<mockturtle::node<Lyt>>>>
+get_fanin_order(const Lyt& lyt) noexcept
+{
+    std::vector<std::pair<mockturtle::node<Lyt>, std::vector<mockturtle::node<Lyt>>>> order{};
+
+    lyt.foreach_node(
+        [&lyt, &order](const auto& n) noexcept
+        {
+            if (lyt.fanin_size(n) == 2)
+            {
+                std::vector<mockturtle::node<Lyt>> drivers{};
+                lyt.foreach_fanin(n, [&lyt, &drivers](const auto& fanin)
+                                  { drivers.push_back(get_driver(lyt, static_cast<tile<Lyt>>(fanin))); });
+                order.emplace_back(n, drivers);
+            }
+        });
+
+    return order;
+}
+/**
+ * Rerouting attaches new connections as last fanins, which would alter asymmetric functions. This function restores the
+ * order of fanins.
+ *
+ * @tparam Lyt Cartesian gate-level layout type.
+ * @param lyt Gate-level layout.
+ * @param order Nodes with two fanins and their drivers before rerouting.
+ */
+template <typename Lyt>
+void restore_fanin_order(
+    Lyt& lyt, const std::vector<std::pair<mockturtle::node<Lyt>, std::vector<mockturtle::node<Lyt>>>>& order) noexcept
+{
+    for (const auto& [n, drivers] : order)
+    {
+        std::vector<mockturtle::signal<Lyt>> signals{};
+        lyt.foreach_fanin(n, [&signals](const auto& fanin) { signals.push_back(fanin); });
+
+        if (signals.size() == 2 && drivers.front() != drivers.back() &&
+            get_driver(lyt, static_cast<tile<Lyt>>(signals.front())) == drivers.back())
+        {
+            lyt.move_node(n, lyt.get_tile(n), {signals.back(), signals.front()});
+        }
+    }
+}
 /**
  * Custom comparison function for sorting tiles based on the sum of their coordinates that breaks ties based on the
  * x-coordinate.
@@ -463,6 +537,9 @@ class post_layout_optimization_impl
         // create an obstruction layout based on the original layout
         auto layout = obstruction_layout<Lyt>(plyt);
 
+        // store the order of fanins
+        const auto fanin_order = get_fanin_order(layout);
+
         // initialize flags to control the optimization loop
         bool moved_at_least_one_gate = true;
         bool reduced_wiring          = true;
@@ -571,6 +648,8 @@ class post_layout_optimization_impl
             optimize_output_positions(layout);
         }
 
+        restore_fanin_order(layout, fanin_order);
+
         // final bounding box calculation and layout resizing
         const auto final_bounding_box = bounding_box_2d(layout);
         layout.resize({final_bounding_box.get_max().x, final_bounding_box.get_max().y, layout.z()});
-- 
2.43.0


From 6abf79ff23ae4ee53685f38589ba03cfbc429170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 43/52] fix: hexagonalization crashed on extending inputs that
 no output depends on

---
 .../physical_design/hexagonalization.hpp        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/hexagonalization.hpp b/include/fiction/algorithms/physical_design/hexagonalization.hpp
index e3dda82..c940c33 100644
--- a/include/fiction/algorithms/physical_design/hexagonalization.hpp
+++ b/include/fiction/algorithms/physical_design/hexagonalization.hpp
@@ -676,6 +676,14 @@ class hexagonalization_impl
                     // shift left primary input position
                     middle_pi.x -= 1;
 
+                    // inputs that nothing depends on need no rerouting
+                    if (hex_layout.fanout_size(hex_layout.get_node(c)) == 0)
+                    {
+                        hex_layout.move_node(hex_layout.get_node(c), middle_pi);
+                        x_max = std::max(static_cast<uint64_t>(middle_pi.x), x_max);
+                        continue;
+                    }
+
                     routing_objective_with_fanin_update_information<HexLyt> obj(middle_pi, fanout, false);
 
                     // collect fan-in signals for the fanout node
@@ -732,6 +740,15 @@ class hexagonalization_impl
 
                     // shift top primary input position
                     middle_pi.x += 1;
+
+                    // inputs that nothing depends on need no rerouting
+                    if (hex_layout.fanout_size(hex_layout.get_node(c)) == 0)
+                    {
+                        hex_layout.move_node(hex_layout.get_node(c), middle_pi);
+                        x_max = std::max(static_cast<uint64_t>(middle_pi.x), x_max);
+                        continue;
+                    }
+
                     routing_objective_with_fanin_update_information<HexLyt> obj(middle_pi, fanout, false);
 
                     // collect fan-in signals for the fanout node
-- 
2.43.0


From 5e98ba00608e99385c3d91470199eca67aa3da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 44/52] fix: hexagonalization exchanged operands of asymmetric
 gates that read two extended inputs

---
 .../algorithms/physical_design/hexagonalization.hpp       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fiction/algorithms/physical_design/hexagonalization.hpp b/include/fiction/algorithms/physical_design/hexagonalization.hpp
index c940c33..e075111 100644
--- a/include/fiction/algorithms/physical_design/hexagonalization.hpp
+++ b/include/fiction/algorithms/physical_design/hexagonalization.hpp
@@ -777,6 +777,14 @@ class hexagonalization_impl
                             }
                         });
 
+                    // if the other fan-in of the gate has already been detached, the order is determined by that one
+                    if (const auto it = std::ranges::find_if(objectives, [&fanout](const auto& o)
+                                                             { return o.target == fanout; });
+                        it != objectives.cend())
+                    {
+                        first_fanin_is_c = !it->update_first_fanin;
+                    }
+
                     x_max = std::max(static_cast<uint64_t>(middle_pi.x), x_max);
                     y_max = std::max(static_cast<uint64_t>(middle_pi.y), y_max);
                     hex_layout.move_node(hex_layout.get_node(c), middle_pi);
-- 
2.43.0


From feec498af032c194eb81b045e3e15e76c6e9b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:48 +0000
Subject: [PATCH 45/52] fix: assigning a charge distribution surface did not
 assign its layout

---
 include/fiction/technology/charge_distribution_surface.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 0b537d6..fdc74a5 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -403,6 +403,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
     {
         if (this != &other)
         {
+            Lyt::operator=(other);
             strg = std::make_shared<charge_distribution_storage>(*other.strg);
         }
 
-- 
2.43.0


From 307b1baf1ec0a51357d2b5959c7e6aaabfe9a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 46/52] fix: external potential at a position without an SiDB
 was written out of bounds

---
 include/fiction/technology/charge_distribution_surface.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index fdc74a5..3ac7af5 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -988,8 +988,11 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         {
             if (strg->defects.find(c) == strg->defects.cend())
             {
-                // c is an SiDB
-                strg->local_ext_pot[static_cast<uint64_t>(cell_to_index(c))] = external_pot;
+                // c is an SiDB or hosts nothing (anymore)
+                if (const auto index = cell_to_index(c); index != -1)
+                {
+                    strg->local_ext_pot[static_cast<uint64_t>(index)] = external_pot;
+                }
             }
             else
             {
-- 
2.43.0


From dc884a1aad3aacc971a6588f17fa859004fa83f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:24 +0000
Subject: [PATCH 47/52] fix: QuickExact reported energies and validity without
 external potentials where no SiDB or a single one was simulated

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index 5b6f562..c00edbb 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -491,6 +491,7 @@ class quickexact_impl
 
         charge_lyt.assign_local_external_potential(params.local_external_potential);
         charge_lyt.assign_global_external_potential(params.global_potential);
+        charge_lyt.update_after_charge_change();
 
         preassigned_negative_sidb_indices = charge_lyt.negative_sidb_detection();
         preassigned_negative_sidbs.reserve(preassigned_negative_sidb_indices.size());
-- 
2.43.0


From 3a02ff2d8fbd1c02f77c3f4fbda284764b564694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 48/52] fix: configuration stability weighed external
 potentials twice as much as the potentials of other charges

---
 include/fiction/technology/charge_distribution_surface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 3ac7af5..4ceb812 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1276,8 +1276,8 @@ class charge_distribution_surface<Lyt, false> : public Lyt
         const auto hop_del =
             [this](const uint64_t c1, const uint64_t c2)  // energy change when charge hops between two SiDBs.
         {
-            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] +
-                   (0.5 * (strg->local_int_pot[c1] - strg->local_int_pot[c2] - strg->pot_mat[c1][c2]));
+            return strg->local_ext_pot[c1] - strg->local_ext_pot[c2] + strg->local_int_pot[c1] -
+                   strg->local_int_pot[c2] - strg->pot_mat[c1][c2];
         };
 
         for (uint64_t i = 0u; i < strg->sidb_order.size(); ++i)
-- 
2.43.0


From 032d7dba93301c1dd15b2051a4ccf7fad6396284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:17 +0000
Subject: [PATCH 49/52] fix: QuickExact missed positive charges where only its
 dependent SiDB can be positive

---
 include/fiction/algorithms/simulation/sidb/quickexact.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fiction/algorithms/simulation/sidb/quickexact.hpp b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
index c00edbb..6f4f57e 100644
--- a/include/fiction/algorithms/simulation/sidb/quickexact.hpp
+++ b/include/fiction/algorithms/simulation/sidb/quickexact.hpp
@@ -352,6 +352,8 @@ class quickexact_impl
         static_assert(has_sidb_technology_v<ChargeLyt>, "ChargeLyt is not an SiDB layout");
         static_assert(is_charge_distribution_surface_v<ChargeLyt>, "ChargeLyt is not a charge distribution surface");
 
+        charge_layout.assign_base_number(3);
+
         charge_layout.assign_all_charge_states(sidb_charge_state::NEGATIVE);
         charge_layout.update_after_charge_change();
         // Not executed to detect if 3-state simulation is required, but to detect the SiDBs that could be positively
-- 
2.43.0


From 7d9b5827d78321572512a02c8514671f91b71a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 50/52] fix: is_ground_state compared charge indices of
 different bases and aborted on degenerate excited states

---
 .../simulation/sidb/is_ground_state.hpp       | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
index 32e5992..4a0c4e2 100644
--- a/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
+++ b/include/fiction/algorithms/simulation/sidb/is_ground_state.hpp
@@ -8,9 +8,7 @@
 #include "fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp"
 #include "fiction/traits.hpp"
 
-#include <cassert>
-#include <cstdint>
-#include <unordered_set>
+#include <algorithm>
 
 namespace fiction
 {
@@ -41,27 +39,30 @@ template <typename Lyt>
 
     const auto ground_state_charge_distributions_heuristic = heuristic_results.groundstates();
 
-    assert(ground_state_charge_distributions_heuristic.size() <= ground_state_charge_distributions_exact.size() &&
-           "The heuristic results must be less equal than the exact results.");
-
+    // The heuristic can report more states than there are ground states if all of them are degenerate excited states.
     if (ground_state_charge_distributions_exact.size() != ground_state_charge_distributions_heuristic.size())
     {
         return false;
     }
 
-    std::unordered_set<uint64_t> indices_ground_state_heuristic{};
-
-    // Collect all charge indices of the ground states simulated by the heuristic.
-    for (const auto& cds : ground_state_charge_distributions_heuristic)
+    // Charge indices cannot be compared because the results may refer to different base numbers.
+    const auto is_same_charge_distribution = [](const auto& cds1, const auto& cds2)
     {
-        indices_ground_state_heuristic.insert(cds.get_charge_index_and_base().first);
-    }
+        auto charge_states_equal = true;
+
+        cds1.foreach_cell(
+            [&cds1, &cds2, &charge_states_equal](const auto& c)
+            { charge_states_equal &= cds1.get_charge_state(c) == cds2.get_charge_state(c); });
+
+        return charge_states_equal;
+    };
 
     // Check if the heuristic has found all ground states.
     for (const auto& cds : ground_state_charge_distributions_exact)
     {
-        if (indices_ground_state_heuristic.find(cds.get_charge_index_and_base().first) ==
-            indices_ground_state_heuristic.cend())
+        if (std::ranges::none_of(ground_state_charge_distributions_heuristic,
+                                 [&](const auto& heuristic_cds)
+                                 { return is_same_charge_distribution(cds, heuristic_cds); }))
         {
             return false;
         }
-- 
2.43.0


From c1857955d79403d6a9be67d724dae244ae6eaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:32 +0000
Subject: [PATCH 51/52] fix: degeneracy of an energy was reported as its
 excited state number

---
 .../simulation/sidb/energy_distribution.hpp   | 29 ++++++++++++++++---
 .../simulation/sidb/operational_domain.hpp    |  9 +++---
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
index 704032a..46b5408 100644
--- a/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
+++ b/include/fiction/algorithms/simulation/sidb/energy_distribution.hpp
@@ -83,21 +83,42 @@ class energy_distribution
     /**
      * Returns the degeneracy value (number of states) with the given energy value.
      *
-     * @param energy The energy value for which the excited state number is to be determined.
+     * @param energy The energy value for which the degeneracy is to be determined.
      * @return The degeneracy of the given energy. If the energy value is not found, `std::nullopt` is
      * returned instead.
      */
     [[nodiscard]] std::optional<uint64_t> degeneracy(const double energy) const noexcept
     {
-        uint64_t degeneracy = 0;
+        for (const auto& [key, value] : distribution)
+        {
+            if (std::abs(key - energy) < constants::ERROR_MARGIN)
+            {
+                return value;
+            }
+        }
+
+        return std::nullopt;
+    }
+    /**
+     * Returns the excited state number of the given energy value, i.e., 0 for the ground state energy, 1 for the energy of
+     * the first excited state, and so on.
+     *
+     * @param energy The energy value for which the excited state number is to be determined.
+     * @return The excited state number of the given energy. If the energy value is not found, `std::nullopt` is returned
+     * instead.
+     */
+    [[nodiscard]] std::optional<uint64_t> excited_state_number(const double energy) const noexcept
+    {
+        uint64_t state_number = 0;
 
         for (const auto& [key, value] : distribution)
         {
             if (std::abs(key - energy) < constants::ERROR_MARGIN)
             {
-                return degeneracy;
+                return state_number;
             }
-            ++degeneracy;
+
+            ++state_number;
         }
 
         return std::nullopt;
diff --git a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
index 1011e2e..ddbea95 100644
--- a/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
+++ b/include/fiction/algorithms/simulation/sidb/operational_domain.hpp
@@ -1151,16 +1151,15 @@ class operational_domain_impl
                     const auto energy_dist = calculate_energy_distribution(sim_results.charge_distributions);
 
                     lyt.assign_physical_parameters(simulation_parameters);
-                    const auto degeneracy_of_layout_energy =
-                        energy_dist.degeneracy(lyt.get_electrostatic_potential_energy());
+                    const auto excited_state_number =
+                        energy_dist.excited_state_number(lyt.get_electrostatic_potential_energy());
 
-                    if (!degeneracy_of_layout_energy.has_value())
+                    if (!excited_state_number.has_value())
                     {
                         return;
                     }
 
-                    const auto excited_state_number = degeneracy_of_layout_energy.value();
-                    suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number));
+                    suitable_params_domain.add_value(param_point, std::make_tuple(excited_state_number.value()));
                 }
             });
 
-- 
2.43.0


From 7a7266b98ad0b769fe5ad205ec1501b6f1e475f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:50 +0000
Subject: [PATCH 52/52] fix: the threads of QuickSim raced for one random
 number generator

---
 include/fiction/technology/charge_distribution_surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fiction/technology/charge_distribution_surface.hpp b/include/fiction/technology/charge_distribution_surface.hpp
index 4ceb812..3da06ec 100644
--- a/include/fiction/technology/charge_distribution_surface.hpp
+++ b/include/fiction/technology/charge_distribution_surface.hpp
@@ -1601,7 +1601,7 @@ class charge_distribution_surface<Lyt, false> : public Lyt
             return;
         }
 
-        static std::mt19937_64                  generator(std::random_device{}());
+        thread_local std::mt19937_64            generator(std::random_device{}());
         std::uniform_int_distribution<uint64_t> dist(0, candidates.size() - 1);
         const auto                              random_element = index_vector[candidates[dist(generator)]];
         strg->cell_charge[random_element]                      = sidb_charge_state::NEGATIVE;
-- 
2.43.0

