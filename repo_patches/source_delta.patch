From 6486542a52304b284bb9ffaba8b6d03a3a1073a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 01/35] fix: keep the thread safety of a kernel through
 serialization

The thread safety level was neither initialised by the default constructor nor
restored when loading, so a deserialised kernel reported an indeterminate or
stale level. It is now recomputed from the two functions, and loading leaves
the target untouched if it fails.
---
 include/dcgp/kernel.hpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..3db19ca 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -152,12 +152,25 @@ public:
      * @throws unspecified any exception thrown by the serialization of the expression and of primitive types.
      */
     template <typename Archive>
-    void serialize(Archive &ar, unsigned)
+    void save(Archive &ar, unsigned) const
     {
-        ar &m_f;
-        ar &m_pf;
-        ar &m_name;
+        ar << m_f;
+        ar << m_pf;
+        ar << m_name;
     }
+    template <typename Archive>
+    void load(Archive &ar, unsigned)
+    {
+        // Deserialize in a separate object and move it in later, for exception safety.
+        kernel tmp;
+        ar >> tmp.m_f;
+        ar >> tmp.m_pf;
+        ar >> tmp.m_name;
+        // The thread safety follows from that of the two functions.
+        tmp.m_thread_safety = std::min(tmp.m_f.get_thread_safety(), tmp.m_pf.get_thread_safety());
+        *this = std::move(tmp);
+    }
+    BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 private:
     /// The function
@@ -167,7 +180,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From bcc147beb376b1d2200ffdcc69b179bd131d2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 02/35] fix: uball5d sums the squared distances, as documented

The label of UBall5D is documented (and published) as 10 / (5 + sum_i (x_i - 3)^2);
the code multiplied the five terms.
---
 include/dcgp/gym.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..ba1b983 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -90,8 +90,8 @@ inline double uball5d(const std::vector<double> &x)
 {
     return 10.
            / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+              + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From dbf53b82b74c10ccdc49c91beaf65c98f2330009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 03/35] fix: sinecosine is 6 sin(x1) cos(x2), as documented

The code computed 6 cos(x1 sin(x2)).
---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index ba1b983..c1cc1a5 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -101,7 +101,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From 9ba0beb3f7083011ddb6385238eaef083eb615c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 04/35] fix: formulas of P2, Salutowicz, RatPol3D, Misra1b and
 gaussian_nu in the documentation

---
 dcgpy/docstrings.cpp                | 8 ++++----
 doc/sphinx/docs/cpp/kernel_list.rst | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dcgpy/docstrings.cpp b/dcgpy/docstrings.cpp
index d6eb8ba..0da2a6a 100644
--- a/dcgpy/docstrings.cpp
+++ b/dcgpy/docstrings.cpp
@@ -533,7 +533,7 @@ European Conference on Genetic Programming. Springer, 2017.
 The functional form of such a problem is:
 
 .. math::
-   y = x^5 - \pi x^3 + \frac{\pi}{x}
+   y = x^5 - \pi x^3 + \frac{2\pi}{x}
 
 x is sampled in ten equally spaced points in [0.1,5].
 
@@ -736,7 +736,7 @@ The functional form of such a problem is:
 .. math::
    y = e^{-x} x^3 \cos x\sin x (\cos x \sin^2 x - 1)
 
-x is sampled in one hundred points uniformly sampled in [0.5,10].
+x is sampled in one hundred points uniformly sampled in [0.05,10].
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
@@ -824,7 +824,7 @@ programming." IEEE Transactions on Evolutionary Computation 13.2 (2008): 333-349
 The functional form of such a problem is:
 
 .. math::
-   y = 30 \frac{(x_1 - 3)(x_3 - 1)}{x_2^2(x_1-10)}
+   y = 30 \frac{(x_1 - 1)(x_3 - 1)}{x_2^2(x_1-10)}
 
 :math:`x_1`, :math:`x_2`, :math:`x_3` are sampled in 300 randomly selected points in [0.05,2] x [1,2].
 
@@ -1112,7 +1112,7 @@ available. (see https://www.itl.nist.gov/div898/strd/nls/data/misra1b.shtml)
 A good model for such a problem is:
 
 .. math::
-   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_1 \frac x2\right)^2}\right) + \epsilon
+   y = \beta_1 \left( 1 - \frac 1{\left(1 + \beta_2 \frac x2\right)^2}\right) + \epsilon
 
 Returns:
     A tuple containing the points (``2D NumPy float array``) and labels (``2D NumPy float array``).
diff --git a/doc/sphinx/docs/cpp/kernel_list.rst b/doc/sphinx/docs/cpp/kernel_list.rst
index eac021a..26f7299 100644
--- a/doc/sphinx/docs/cpp/kernel_list.rst
+++ b/doc/sphinx/docs/cpp/kernel_list.rst
@@ -57,7 +57,7 @@ kernels to the set.
    +----------------+------------------------+---------------------------------------------------------------------------------------+
    |"cos_nu"        |cosine (non unary)      | :math:`\cos(\sum_i x_i)`                                                              |
    +----------------+------------------------+---------------------------------------------------------------------------------------+
-   |"gaussian_nu"   |gaussian (non unary)    | :math:`e^{\sum_i x_i}`                                                                |
+   |"gaussian_nu"   |gaussian (non unary)    | :math:`e^{-(\sum_i x_i)^2}`                                                           |
    +----------------+------------------------+---------------------------------------------------------------------------------------+
    |"abs"           |absolute value          | :math:`\vert\sum_i x_i\vert`                                                          |
    +----------------+------------------------+---------------------------------------------------------------------------------------+
-- 
2.43.0


From a8092433a04da58f846e517446fecc30aa31f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 05/35] fix: lanczos2 returns the Lanczos2 data, not those of
 Lanczos3

The labels were the 5-digit observations of NIST Lanczos3; the documented
Lanczos2 problem has 6-digit ones (certified residual 2.2299428125E-11).
---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From a7a3f619bcd692593f272658f4873bc5bf76250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 06/35] fix: the text of gaussian keeps the sign of its operand
 under the square

The text of gaussian(inv_sum(x)) was exp(--(x)**2), which is exp(x**2).
---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..1ca3206 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 270eba578dd70405a0407e7ad4137b83c21972a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 07/35] fix: vectorized ReLu, ELU and step look at each point

With vectorized coefficients the sign test was made once for the whole vector,
so that a batch of points of both signs was left unrectified.
---
 include/dcgp/wrapped_functions.hpp | 39 +++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 1ca3206..5b845e2 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -47,6 +47,26 @@ namespace dcgp
 template <typename T>
 using f_enabler = typename std::enable_if<std::is_same<T, double>::value || is_gdual<T>::value, int>::type;
 
+namespace detail
+{
+// Whether x is negative (its constant coefficient), as 1 or 0. Vectorized coefficients are looked at one by one.
+template <typename Cf>
+inline audi::gdual<Cf> is_negative(const audi::gdual<Cf> &x)
+{
+    return audi::gdual<Cf>(x.constant_cf() < audi::gdual<Cf>(0.).constant_cf() ? 1. : 0.);
+}
+
+inline audi::gdual_v is_negative(const audi::gdual_v &x)
+{
+    std::vector<double> retval;
+    const auto cf = x.constant_cf();
+    for (auto it = cf.begin(); it != cf.end(); ++it) {
+        retval.push_back(*it < 0. ? 1. : 0.);
+    }
+    return audi::gdual_v(retval);
+}
+} // namespace detail
+
 /*--------------------------------------------------------------------------
  *                              N-ARITY FUNCTIONS
  *------------------------------------------------------------------------**/
@@ -302,10 +322,7 @@ struct my_relu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = T(0.);
-        }
-        return retval;
+        return retval * (T(1.) - detail::is_negative(retval));
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
@@ -356,10 +373,9 @@ struct my_elu_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = audi::exp(retval) - T(1.);
-        }
-        return retval;
+        // The exponential is only taken of what is negative: elsewhere it is that of zero.
+        const T mask = detail::is_negative(retval);
+        return retval * (T(1.) - mask) + (audi::exp(retval * mask) - T(1.));
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
@@ -625,12 +641,7 @@ struct my_step_func<T, std::enable_if_t<is_gdual<T>::value>> {
         for (auto i = 1u; i < in.size(); ++i) {
             retval += in[i];
         }
-        if (retval.constant_cf() < T(0.).constant_cf()) {
-            retval = T(0.);
-        } else {
-            retval = T(1.);
-        }
-        return retval;
+        return T(1.) - detail::is_negative(retval);
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From ab415fc5291571de3e237d6642dd58e8497b1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:42 +0000
Subject: [PATCH 08/35] fix: mutate checks all the indexes before mutating any
 gene

An index out of bounds used to throw after the preceding genes had been
mutated, with the active nodes and genes left those of the old chromosome.
---
 include/dcgp/expression.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..89ab30b 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -678,10 +678,11 @@ public:
     void mutate(std::vector<unsigned> idxs)
     {
         bool flag = false;
+        // All the indexes are checked before any gene is mutated
+        if (std::any_of(idxs.begin(), idxs.end(), [this](unsigned idx) { return idx >= m_x.size(); })) {
+            throw std::invalid_argument("idx of gene to be mutated is out of bounds");
+        }
         for (auto i = 0u; i < idxs.size(); ++i) {
-            if (idxs[i] >= m_x.size()) {
-                throw std::invalid_argument("idx of gene to be mutated is out of bounds");
-            }
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From 47271c7c3fa898600ac77a73b4b0f5734eaf1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 09/35] fix: set_from_range rejects NaN

A NaN is not within any bounds, but was accepted and cast to an unsigned.
---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 89ab30b..04a3b93 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1108,7 +1108,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // (written so that a NaN is out of bounds)
+            if (!(*begin <= *ub_iter && *begin >= *lb_iter)) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 6d1c02404e453c49fcd6c076b065e72a3965b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 10/35] fix: mutate_ogene(0) mutates nothing, with one output
 too

---
 include/dcgp/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 04a3b93..b974fb6 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -831,7 +831,7 @@ public:
                 mutate(idx);
             }
 
-        } else {
+        } else if (N > 0u) {
             idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
             mutate(idx);
-- 
2.43.0


From 2ecae11e98bd5afecef5b9d787196ce366cee5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 11/35] fix: cross entropy stays finite when the probability of
 a class underflows

---
 include/dcgp/expression.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index b974fb6..2143a96 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -307,14 +307,14 @@ public:
             case loss_type::CE: {
                 // We guard from numerical instabilities subtracting the max element
                 auto max = *std::max_element(outputs.begin(), outputs.end());
-                // exp(a_i - max)
-                std::transform(outputs.begin(), outputs.end(), outputs.begin(),
-                               [max](T a) { return audi::exp(a - max); });
-                // sum exp(a_i - max)
-                T cumsum = std::accumulate(outputs.begin(), outputs.end(), T(0.));
-                // log(p_i) * y_i
+                // a_i - max
+                std::transform(outputs.begin(), outputs.end(), outputs.begin(), [max](T a) { return a - max; });
+                // log(sum exp(a_i - max))
+                T logsum = audi::log(std::accumulate(outputs.begin(), outputs.end(), T(0.),
+                                                     [](const T &acc, const T &a) { return acc + audi::exp(a); }));
+                // log(p_i) * y_i, where log(p_i) = a_i - max - log(sum exp(a_i - max)) (finite also when p_i underflows)
                 std::transform(outputs.begin(), outputs.end(), prediction.begin(), outputs.begin(),
-                               [cumsum](T a, T y) { return audi::log(a / cumsum) * y; });
+                               [logsum](T a, T y) { return (a - logsum) * y; });
                 // - sum log(p_i) y_i
                 retval = -std::accumulate(outputs.begin(), outputs.end(), T(0.));
                 break;
-- 
2.43.0


From 8265aca38ede535e526ff0a0f70011217f321c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 12/35] fix: a weighted expression applies its phenotype
 correction

---
 include/dcgp/expression.hpp          | 20 ++++++++++++--------
 include/dcgp/expression_weighted.hpp |  9 +++++++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 2143a96..f593766 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -190,14 +190,8 @@ public:
      */
     virtual std::vector<T> operator()(const std::vector<T> &point) const
     {
-        std::vector<T> retval(m_m);
-        if (m_phenotype_correction) {
-            retval = (*m_phenotype_correction)(
-                point, [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); });
-        } else {
-            retval = call_operator_impl(*this, point);
-        }
-        return retval;
+        return apply_phenotype_correction(
+            point, [this](const std::vector<T> &arg) { return call_operator_impl(*this, arg); });
     }
 
     /// Evaluates the dCGP expression (from initializer list)
@@ -1001,6 +995,16 @@ protected:
         }
     }
 
+    // Evaluates, in *point*, the expression *g* after the phenotype correction (if any is set) is applied.
+    template <typename G>
+    std::vector<T> apply_phenotype_correction(const std::vector<T> &point, const G &g) const
+    {
+        if (m_phenotype_correction) {
+            return (*m_phenotype_correction)(point, g);
+        }
+        return g(point);
+    }
+
     /// Evaluates the model loss (on a batch)
     /**
      * Evaluates the model loss over a batch.
diff --git a/include/dcgp/expression_weighted.hpp b/include/dcgp/expression_weighted.hpp
index 35b68af..50e17dc 100644
--- a/include/dcgp/expression_weighted.hpp
+++ b/include/dcgp/expression_weighted.hpp
@@ -121,6 +121,14 @@ public:
      * @return The value of the output (an std::vector)
      */
     std::vector<T> operator()(const std::vector<T> &in) const override
+    {
+        return this->apply_phenotype_correction(
+            in, [this](const std::vector<T> &arg) { return this->evaluate_uncorrected(arg); });
+    }
+
+private:
+    // The value of the expression, before any phenotype correction.
+    std::vector<T> evaluate_uncorrected(const std::vector<T> &in) const
     {
         if (in.size() != this->get_n()) {
             throw std::invalid_argument("Input size is incompatible");
@@ -150,6 +158,7 @@ public:
         return retval;
     }
 
+public:
     /// Evaluates the dCGP-weighted expression
     /**
      * This evaluates the dCGP-weighted expression. This method overrides the base class
-- 
2.43.0


From ae3519607845c40b2090dc38e780ba34ebaaaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:09 +0000
Subject: [PATCH 13/35] fix: gradient of the cross entropy for labels that do
 not sum to one

---
 include/dcgp/expression_ann.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..7d7f20a 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -365,9 +365,10 @@ public:
                 double cumsum = std::accumulate(ps.begin(), ps.end(), 0.);
                 // We transform to probabilities p_i
                 std::transform(ps.begin(), ps.end(), ps.begin(), [cumsum](double a) { return a / cumsum; });
-                // We add the derivatives of the loss w.r.t. to outputs
+                // We add the derivatives of the loss w.r.t. to outputs (the labels need not sum to one)
+                double labelsum = std::accumulate(prediction.begin(), prediction.end(), 0.);
                 for (decltype(ps.size()) i = 0u; i < ps.size(); ++i) {
-                    d_node.push_back(ps[i] - prediction[i]);
+                    d_node.push_back(ps[i] * labelsum - prediction[i]);
                 }
                 // We compute the cross-entropy
                 std::transform(ps.begin(), ps.end(), prediction.begin(), ps.begin(),
-- 
2.43.0


From 06b1c53906f52e6305d7110236d58dc1086edc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 14/35] fix: derivative of ISRU at zero in backpropagation

---
 include/dcgp/expression_ann.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 7d7f20a..a05ddb5 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -962,7 +962,9 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        // (f(x) / x)^3, finite in zero too
+                        auto slope = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = slope * slope * slope;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From d7253c9a1f761341c0e9a7a5f7171b5c5410bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:58 +0000
Subject: [PATCH 15/35] fix: cross entropy of a network stays finite when the
 probability of a class underflows

---
 include/dcgp/expression_ann.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index a05ddb5..000842e 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -360,7 +360,10 @@ public:
                 }
                 // We guard from numerical instabilities subtracting the max
                 auto max = *std::max_element(ps.begin(), ps.end());
-                std::transform(ps.begin(), ps.end(), ps.begin(), [max](double a) { return std::exp(a - max); });
+                std::transform(ps.begin(), ps.end(), ps.begin(), [max](double a) { return a - max; });
+                // log(p_i) = o_i - max - log(sum exp(o_i - max)), to be kept as p_i may underflow
+                auto logps = ps;
+                std::transform(ps.begin(), ps.end(), ps.begin(), [](double a) { return std::exp(a); });
                 // We compute the sum of exp(o_i - max)
                 double cumsum = std::accumulate(ps.begin(), ps.end(), 0.);
                 // We transform to probabilities p_i
@@ -371,8 +374,9 @@ public:
                     d_node.push_back(ps[i] * labelsum - prediction[i]);
                 }
                 // We compute the cross-entropy
-                std::transform(ps.begin(), ps.end(), prediction.begin(), ps.begin(),
-                               [](double p, double y) { return std::log(p) * y; });
+                double logsum = std::log(cumsum);
+                std::transform(logps.begin(), logps.end(), prediction.begin(), ps.begin(),
+                               [logsum](double a, double y) { return (a - logsum) * y; });
                 // - sum log(p_i) y_i
                 value += -std::accumulate(ps.begin(), ps.end(), 0.);
                 break;
-- 
2.43.0


From bb95521913d43c5033370c7fe3107d17e6ac4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 16/35] fix: sgd checks the rate, the batch size and the split
 of all its batches before it starts

---
 include/dcgp/expression_ann.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 000842e..7ce6eaf 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -476,11 +476,24 @@ public:
         if (points.size() == 0) {
             throw std::invalid_argument("Data size cannot be zero");
         }
-        if (lr <= 0) {
+        if (!(lr > 0)) {
             throw std::invalid_argument("The learning rate must be a positive number, while: " + std::to_string(lr)
                                         + " was detected.");
         }
 
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
+        // All batches, including the last one which may be smaller, must be divisible in parallel chunks.
+        if (parallel > 0u) {
+            const auto full = std::min<decltype(points.size())>(batch_size, points.size());
+            if (full % parallel != 0u || (points.size() % full) % parallel != 0u) {
+                throw std::invalid_argument("The batches cannot be divided into " + std::to_string(parallel)
+                                            + " parts of equal size: the batch size is " + std::to_string(full)
+                                            + " while the data size is " + std::to_string(points.size()));
+            }
+        }
+
         // Decoding the loss from string to the enum type (loss_s -> loss_e)
         expression<double>::loss_type loss_e;
         if (loss_s == "MSE") {
-- 
2.43.0


From c8d80d68df88294212153df87e5c0cf6b4eb32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 17/35] fix: set_output_f rejects unknown names and networks
 with an output wired to an input

---
 include/dcgp/expression_ann.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 7ce6eaf..9a59772 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -548,7 +548,7 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
@@ -579,6 +579,11 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument("An output is connected directly to an input, which has no nonlinearity");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From 0ca1f02dbbb0dc95cb93bd00a48b45da7974fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 18/35] fix: weights and biases of a network are accessed only
 where they exist

---
 include/dcgp/expression_ann.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 9a59772..49aa77c 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -680,10 +680,13 @@ public:
      * @param[idx] index of the weight to be changed.
      * @param[w] value of the weight to be changed.
      *
-     * @throws std::invalid_argument if the node_id or input_id are not valid
+     * @throws std::invalid_argument if the idx is not valid
      */
     void set_weight(std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight index does not exist");
+        }
         m_weights[idx] = w;
     }
 
@@ -735,9 +738,13 @@ public:
      *
      * @param[in] idx index of the weight
      *
+     * @throws std::invalid_argument if the idx is not valid
      */
     double get_weight(std::vector<double>::size_type idx) const
     {
+        if (idx >= m_weights.size()) {
+            throw std::invalid_argument("Requested weight index does not exist");
+        }
         return m_weights[idx];
     }
 
@@ -782,9 +789,13 @@ public:
      * @param[idx] index of the bias to be changed.
      * @param[w] value of the new bias.
      *
+     * @throws std::invalid_argument if the idx is not valid
      */
     void set_bias(typename std::vector<double>::size_type idx, const double &w)
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias index does not exist");
+        }
         m_biases[idx] = w;
     }
 
@@ -810,9 +821,13 @@ public:
      *
      * @param[in] idx index of the bias
      *
+     * @throws std::invalid_argument if the idx is not valid
      */
     double get_bias(typename std::vector<double>::size_type idx) const
     {
+        if (idx >= m_biases.size()) {
+            throw std::invalid_argument("Requested bias index does not exist");
+        }
         return m_biases[idx];
     }
 
-- 
2.43.0


From 1c2f0c62f4e51a2cb3c0a54a71cb301c82538abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 19/35] fix: symbolic_regression checks that there are labels
 before reading the first one

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..63b558c 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -570,14 +570,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 091ba20d839fc852d6d20a71932c68def9b477ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 20/35] fix: the fitness computed along with the derivatives is
 not reused when the kernels differ

---
 include/dcgp/problems/symbolic_regression.hpp | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 63b558c..407dfef 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -198,9 +198,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -275,9 +273,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -543,6 +539,19 @@ private:
         return std::accumulate(vec.begin(), vec.end(), 0.) / static_cast<double>(vec.size());
     }
 
+    // Stores the fitness of x, to be reused if it is then requested.
+    void cache_fitness(const pagmo::vector_double &x, double loss) const
+    {
+        // The unprotected division is used in place of the protected one when computing the derivatives: the loss
+        // is then in general not the fitness.
+        if (std::any_of(m_f.begin(), m_f.end(), [](const auto &ker) { return ker.get_name() == "pdiv"; })) {
+            return;
+        }
+        m_cache_fitness.first = x;
+        m_cache_fitness.second.resize(get_nobj());
+        m_cache_fitness.second[0] = loss;
+    }
+
     // Transpose of a vector vector
     static inline std::vector<std::vector<double>> transpose(const std::vector<std::vector<double>> &points)
     {
-- 
2.43.0


From d57f058826d8f2c91a4434deacd012fcf570c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 21/35] fix: changing the phenotype correction discards the
 cached fitness

---
 include/dcgp/problems/symbolic_regression.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 407dfef..2b50d02 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -523,6 +523,7 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        m_cache_fitness.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -530,6 +531,7 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        m_cache_fitness.first.clear();
     }
 
 private:
-- 
2.43.0


From 5c91c4c4f38e1888675bcdd4885eca2c45065230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 22/35] fix: derivatives with respect to ten or more ephemeral
 constants

---
 include/dcgp/problems/symbolic_regression.hpp | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 2b50d02..14f60c1 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -203,9 +203,10 @@ public:
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
                                          // (gradient is then zero)
+            const auto pos = symbol_positions();
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
                 std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                coeff[pos[i]] = 1.;
                 auto dvec = loss.get_derivative(coeff);
                 retval[i] = collapse(dvec);
             }
@@ -278,18 +279,19 @@ public:
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
         if (!(loss.get_order() == 0u)) {
+            const auto pos = symbol_positions();
             // gradient (we cache it)
             for (decltype(m_n_eph) i = 0u; i < m_n_eph; ++i) {
                 std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[i] = 1.;
+                coeff[pos[i]] = 1.;
                 auto deriv = loss.get_derivative(coeff);
                 m_cache_gradient.second[i] = collapse(deriv);
             }
             // hessian (we return it)
             for (decltype(hd) i = 0u; i < hd; ++i) {
                 std::vector<unsigned> coeff(m_n_eph, 0.);
-                coeff[hs[0][i].first] = 1;
-                coeff[hs[0][i].second] += 1;
+                coeff[pos[hs[0][i].first]] = 1;
+                coeff[pos[hs[0][i].second]] += 1;
                 auto deriv = loss.get_derivative(coeff);
                 retval[0][i] = collapse(deriv);
             }
@@ -541,6 +543,18 @@ private:
         return std::accumulate(vec.begin(), vec.end(), 0.) / static_cast<double>(vec.size());
     }
 
+    // The position of each ephemeral constant in the symbol set of a gdual, where symbols are ordered
+    // lexicographically (hence dc10 comes before dc2).
+    std::vector<std::vector<std::string>::size_type> symbol_positions() const
+    {
+        std::vector<std::vector<std::string>::size_type> retval;
+        for (const auto &symb : m_deph_symb) {
+            retval.push_back(static_cast<std::vector<std::string>::size_type>(std::count_if(
+                m_deph_symb.begin(), m_deph_symb.end(), [&symb](const std::string &other) { return other < symb; })));
+        }
+        return retval;
+    }
+
     // Stores the fitness of x, to be reused if it is then requested.
     void cache_fitness(const pagmo::vector_double &x, double loss) const
     {
-- 
2.43.0


From bf8eaedf3aaefd90ef208f6cd9e8c08d094623a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:20 +0000
Subject: [PATCH 23/35] fix: pretty and prettier write all the outputs

---
 include/dcgp/problems/symbolic_regression.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 14f60c1..c8d43e7 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -398,7 +398,7 @@ public:
         for (decltype(m_points[0].size()) i = 0u; i < m_points[0].size(); ++i) {
             symbols.push_back("x" + std::to_string(i));
         }
-        pagmo::stream(ss, m_cgp(symbols));
+        stream_all(ss, m_cgp(symbols));
         return ss.str();
     }
 
@@ -427,7 +427,7 @@ public:
         for (auto const &raw : raws) {
             exs.emplace_back(raw);
         }
-        pagmo::stream(ss, exs);
+        stream_all(ss, exs);
         return ss.str();
     }
 
@@ -537,6 +537,17 @@ public:
     }
 
 private:
+    // Streams all the elements of a vector (pagmo::stream stops after a few)
+    template <typename T>
+    static inline void stream_all(std::ostream &os, const std::vector<T> &v)
+    {
+        os << '[';
+        for (decltype(v.size()) i = 0u; i < v.size(); ++i) {
+            os << (i == 0u ? "" : ", ") << v[i];
+        }
+        os << ']';
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 26b2dea9d303ec3d55e7d51e04de5b9b1a0c7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 24/35] fix: cross entropy of vectorized gduals stays finite,
 subtracting at each point its own maximum

---
 include/dcgp/expression.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f593766..1237080 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -5,6 +5,7 @@
 #include <functional>
 #include <initializer_list>
 #include <iostream>
+#include <limits>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -299,8 +300,8 @@ public:
             }
             // Cross Entropy
             case loss_type::CE: {
-                // We guard from numerical instabilities subtracting the max element
-                auto max = *std::max_element(outputs.begin(), outputs.end());
+                // We guard from numerical instabilities subtracting the max element (of each point if vectorized)
+                const T max = max_output(outputs);
                 // a_i - max
                 std::transform(outputs.begin(), outputs.end(), outputs.begin(), [max](T a) { return a - max; });
                 // log(sum exp(a_i - max))
@@ -1125,6 +1126,26 @@ private:
         return true;
     }
 
+    // The largest of some outputs. The components of vectorized gduals refer to different points and have each their own.
+    static T max_output(const std::vector<T> &outputs)
+    {
+        if constexpr (std::is_same<T, audi::gdual_v>::value) {
+            std::vector<double> retval(1, -std::numeric_limits<double>::infinity());
+            for (const auto &output : outputs) {
+                const auto cf = output.constant_cf();
+                if (retval.size() < cf.size()) {
+                    retval.resize(cf.size(), retval[0]);
+                }
+                for (decltype(retval.size()) i = 0u; i < retval.size(); ++i) {
+                    retval[i] = std::max(retval[i], cf.size() == 1u ? cf[0] : cf[i]);
+                }
+            }
+            return T(retval);
+        } else {
+            return *std::max_element(outputs.begin(), outputs.end());
+        }
+    }
+
     void sanity_checks()
     {
         if (m_n == 0) throw std::invalid_argument("Number of inputs is 0");
-- 
2.43.0


From 75a5d1c93afa2f27dfc79c539732797af0bcb372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 25/35] fix: es4cgp and moes4cgp keep the constants of the
 parent when not learning them

---
 include/dcgp/algorithms/es4cgp.hpp   | 3 +++
 include/dcgp/algorithms/moes4cgp.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..8fbe18c 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,9 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else {
+                    // else the constants are those of the parent
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..eb9b2b0 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,11 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else {
+                    // else the constants are those of the parent
+                    for (auto j = 0u; j < n_eph; ++j) {
+                        dvs[i * dim + j] = pop.get_x()[i][j];
+                    }
                 }
             }
 
-- 
2.43.0


From 93c7f86ae4f3bef3d1b01bc566e46ee718364471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 26/35] fix: Newton step of mes4cgp and momes4cgp when one of
 many constants is active

---
 include/dcgp/algorithms/mes4cgp.hpp   | 8 +++++---
 include/dcgp/algorithms/momes4cgp.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..b385225 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,12 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // The Hessian is lower triangular: this is the position of the element on the diagonal.
+                        auto diag_idx = non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0];
+                        if (hess[0][diag_idx] != 0. && std::isfinite(grad[non_zero[0]])
+                            && std::isfinite(hess[0][diag_idx])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag_idx];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..f729fac 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -220,10 +220,12 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // The Hessian is lower triangular: this is the position of the element on the diagonal.
+                        auto diag_idx = non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0];
+                        if (hess[0][diag_idx] != 0. && std::isfinite(grad[non_zero[0]])
+                            && std::isfinite(hess[0][diag_idx])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][diag_idx];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From 64ec405b08e8a93a5468c97f4f21aff31f93c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 27/35] fix: mes4cgp logs and prints the ftol exit only when
 verbose

---
 include/dcgp/algorithms/mes4cgp.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index b385225..6c0abd1 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -291,12 +291,14 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 return pop;
             }
         }
-- 
2.43.0


From 6ac59bc63f0b1c88673d24c9323847e13e370ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 28/35] fix: moes4cgp and momes4cgp stop at ftol also when not
 verbose

---
 include/dcgp/algorithms/moes4cgp.hpp  | 16 ++++++++++------
 include/dcgp/algorithms/momes4cgp.hpp | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index eb9b2b0..0dd3386 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,14 +164,18 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    // We log the last iteration, unless already done above
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) {
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index f729fac..d07c16c 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,14 +152,18 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
+                }
+            }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    // We log the last iteration, unless already done above
+                    if (gen % m_verbosity != 1u && m_verbosity != 1u) {
+                        log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     }
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
                 }
+                return pop;
             }
 
             // At each generation we need a copy of the population
-- 
2.43.0


From 77779221adaec0eb0594230f14137b39279cabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 29/35] fix: archives of gd4cgp keep the selection and
 replacement policies

---
 include/dcgp/algorithms/gd4cgp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dcgp/algorithms/gd4cgp.hpp b/include/dcgp/algorithms/gd4cgp.hpp
index 9b26e7b..fb5c82e 100644
--- a/include/dcgp/algorithms/gd4cgp.hpp
+++ b/include/dcgp/algorithms/gd4cgp.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 
 #include <audi/gdual.hpp>
+#include <boost/serialization/base_object.hpp>
 #include <pagmo/algorithm.hpp>
 #include <pagmo/algorithms/not_population_based.hpp>
 #include <pagmo/detail/custom_comparisons.hpp>
@@ -290,6 +291,8 @@ public:
     template <typename Archive>
     void serialize(Archive &ar, unsigned)
     {
+        // The individual selection and replacement policies
+        ar &boost::serialization::base_object<pagmo::not_population_based>(*this);
         ar &m_max_iter;
         ar &m_lr;
         ar &m_lr_min;
-- 
2.43.0


From 5b18a3c5e3d8b2fa65361158261a07a082d93cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:47 +0000
Subject: [PATCH 30/35] fix: archives of moes4cgp keep ftol

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 0dd3386..ca30a66 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -375,6 +375,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From 7e559b605b59ee64c7ed865dfb5e6186b2646c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 31/35] fix: simplify expressions with ephemeral constants,
 which always raised

---
 dcgpy/_simplify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dcgpy/_simplify.py b/dcgpy/_simplify.py
index e061a32..4668b38 100644
--- a/dcgpy/_simplify.py
+++ b/dcgpy/_simplify.py
@@ -14,7 +14,7 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
         This method requires ``sympy`` and ``pyaudi`` modules installed in your Python system
 
     Args:
-        in_sym (a ``List[str]``): input symbols (its length must match the number of inputs)
+        in_sym (a ``List[str]``): input symbols (its length must match the number of inputs, ephemeral constants excluded)
         subs_weights (a ``bool``): indicates whether to substitute the weights symbols with their values
         erc (a ``List[float]``): values of the ephemeral random constants (if empty their symbolic representation is used instead)
 
@@ -35,7 +35,10 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
     n = self.get_n()
     m = self.get_m()
 
-    if len(in_sym) != n:
+    # The ephemeral constants of the expression, if any, follow the inputs and have their own symbols
+    eph_symb = list(self.eph_symb)
+
+    if len(in_sym) != n - len(eph_symb):
         raise ValueError("The length of in_sym must match the number of inputs")
 
     if len(erc) > n:
@@ -56,6 +59,7 @@ def _sympy_simplify(self, in_sym, subs_weights = False, erc = []):
     # define symbols
     pe = []
     exv = self(in_sym)
+    in_sym = list(in_sym) + eph_symb
     ns = {}
     for i in range(n):
         ns[in_sym[i]] = sympy.Symbol(in_sym[i], real = True)
-- 
2.43.0


From d9fb365b9ee165ef10b3c0b0bd7cf7d70a40eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 32/35] fix: visualize networks with one row and one input

---
 dcgpy/_visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index 68a8360..cc7644c 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -61,7 +61,7 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     x = self.get()
 
     # Grid parameters: dr is the separation between rows and dc between columns. radius is the neuron radius
-    dr = 1./(max(r,n)-1)
+    dr = 1./(max(r,n)-1) if max(r,n) > 1 else 1.
     dc = 1./(c-1) if c > 1 else 1.
 
     radius = 1. / max(n,r,c) / 4.
-- 
2.43.0


From 2e5579ae7cd603f4a1a0da2ecbfab4f4e4d7150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 33/35] fix: opacity of the connections stays within [0, 1],
 also with all weights zero

---
 dcgpy/_visualize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcgpy/_visualize.py b/dcgpy/_visualize.py
index cc7644c..35d5455 100644
--- a/dcgpy/_visualize.py
+++ b/dcgpy/_visualize.py
@@ -97,13 +97,13 @@ def _dcgpann_visualize(self, show_connections = True, fill_color = 'w', active_c
     # ------------------------------_HERE WE PLOT -----------------------------------------------
     if show_connections:
         # We loop over all cartesian nodes and plot intranodes connections
-        weight_normalization = max(np.abs(self.get_weights()))
+        weight_normalization = max(np.abs(self.get_weights())) or 1.
         for node_id in range(n, n+r*c):
             start = gene[node_id]
             connections = x[start+1:start+1+self.get_arity(node_id)]
             for j, target_node in enumerate(connections):
                 if node_id in an:
-                    alpha = abs(self.get_weight(node_id, j)) / weight_normalization * active_connection_alpha + 0.1
+                    alpha = min(abs(self.get_weight(node_id, j)) / weight_normalization * active_connection_alpha + 0.1, 1.)
                     ax.plot([pos[node_id][0], pos[target_node][0]],[pos[node_id][1], pos[target_node][1]],alpha=alpha, color='k', zorder=-10)
                 elif show_inactive:
                     alpha = inactive_connection_alpha
-- 
2.43.0


From aa0ad75f43baae0ff34a7dea2c49ae4bc5f9a154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:20 +0000
Subject: [PATCH 34/35] fix: the derivatives of the sigmoid of a very negative
 Taylor number are numbers

---
 include/dcgp/wrapped_functions.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 5b845e2..36c079c 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -228,8 +228,8 @@ inline constexpr auto print_my_pdiv = print_my_pdiv_func{};
  *                            Suitable for dCGPANN
  *------------------------------------------------------------------------**/
 
-// sigmoid function: 1 / (1 + exp(- (a + b + c + d+ .. + ))
-template <typename T, f_enabler<T> = 0>
+// sigmoid function: 1 / (1 + exp(- (a + b + c + d+ .. + )) (double overload)
+template <typename T, typename = void>
 struct my_sig_func {
     /// Call operator
     T operator()(const std::vector<T> &in) const
@@ -243,6 +243,25 @@ struct my_sig_func {
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
 
+// sigmoid function (gdual overload):
+template <typename T>
+struct my_sig_func<T, std::enable_if_t<is_gdual<T>::value>> {
+    /// Call operator
+    T operator()(const std::vector<T> &in) const
+    {
+        T retval(in[0]);
+        for (auto i = 1u; i < in.size(); ++i) {
+            retval += in[i];
+        }
+        // The exponential is taken of -|x|, as its overflow would leave no derivatives: where x is negative the
+        // sigmoid is exp(x) / (1 + exp(x)).
+        const T mask = detail::is_negative(retval);
+        const T e = audi::exp(retval * (2. * mask - 1.));
+        return (mask * e + (1. - mask)) / (1. + e);
+    }
+    DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
+};
+
 template <typename T>
 inline constexpr auto my_sig = my_sig_func<T>{};
 
-- 
2.43.0


From 79f7f45b5092f2d84d1626db88d003de803adb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 35/35] fix: evolutionary strategies draw their mutations from
 their own seed

The random engine of the program copied from the problem was used as it was, so that each call to evolve, whatever the seed of
the algorithm, tried the same genes and values in the same order.
---
 include/dcgp/algorithms/es4cgp.hpp    | 3 +++
 include/dcgp/algorithms/mes4cgp.hpp   | 3 +++
 include/dcgp/algorithms/moes4cgp.hpp  | 3 +++
 include/dcgp/algorithms/momes4cgp.hpp | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 8fbe18c..c56357c 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -139,6 +139,9 @@ public:
         m_log.clear();
         // We make a copy of the cgp which we will use to make mutations.
         auto cgp = udp_ptr->get_cgp();
+        // The random engine copied with it always starts from the same state: we seed it from ours, so that each run
+        // tries other mutations.
+        cgp.seed(static_cast<long>(m_e()));
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // We get the best chromosome in the population.
diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 6c0abd1..f7da671 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -128,6 +128,9 @@ public:
         m_log.clear();
         // We make a copy of the cgp which we will use to make mutations.
         auto cgp = udp_ptr->get_cgp();
+        // The random engine copied with it always starts from the same state: we seed it from ours, so that each run
+        // tries other mutations.
+        cgp.seed(static_cast<long>(m_e()));
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // We get the best chromosome in the population.
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index ca30a66..5725362 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -135,6 +135,9 @@ public:
         m_log.clear();
         // We make a copy of the cgp which we will use to make mutations.
         auto cgp = udp_ptr->get_cgp();
+        // The random engine copied with it always starts from the same state: we seed it from ours, so that each run
+        // tries other mutations.
+        cgp.seed(static_cast<long>(m_e()));
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // Normal distribution (to perturb the constants)
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index d07c16c..e023a31 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -123,6 +123,9 @@ public:
         m_log.clear();
         // We make a copy of the cgp which we will use to make mutations.
         auto cgp = udp_ptr->get_cgp();
+        // The random engine copied with it always starts from the same state: we seed it from ours, so that each run
+        // tries other mutations.
+        cgp.seed(static_cast<long>(m_e()));
         // How many ephemeral constants?
         auto n_eph = prob.get_ncx();
         // The Hessian sparsity is defined here and it will not change.
-- 
2.43.0

