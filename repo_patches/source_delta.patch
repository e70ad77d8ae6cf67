From 7d71cc240783397d82ccd7128114bc220933002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/25] fix: release partly built expressions when an operation
 is aborted

clone(), substitute(), simplify(), diff(), recursive_manipulation(), the
operator overloads and the function overloads passed several freshly
allocated raw pointers to one constructor. If one of the allocations (or a
clone of a user-defined expression) failed, the others leaked. Let the
constructors take over auto_ptrs. The differentiation of a gradient in
addition leaked the derivative of its argument on the regular path.
---
 .../manipulation/detail/binary_operations.hpp | 128 ++++-----
 .../manipulation/detail/unary_operations.hpp  | 252 +++++++++---------
 viennamath/runtime/binary_expr.hpp            |  33 ++-
 viennamath/runtime/integral.hpp               |  36 +--
 .../runtime/operations/function_symbol.hpp    |   4 +-
 viennamath/runtime/operations/rt_rt.hpp       |   8 +-
 viennamath/runtime/unary_expr.hpp             |  25 +-
 7 files changed, 247 insertions(+), 239 deletions(-)

diff --git a/viennamath/manipulation/detail/binary_operations.hpp b/viennamath/manipulation/detail/binary_operations.hpp
index 712db08..d92ed8f 100644
--- a/viennamath/manipulation/detail/binary_operations.hpp
+++ b/viennamath/manipulation/detail/binary_operations.hpp
@@ -40,9 +40,9 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_plus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
-                                                new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+      return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(lhs->diff(diff_var)),
+                                                op_binary<op_plus<NumericT>, InterfaceType>(),
+                                                std::auto_ptr<InterfaceType>(rhs->diff(diff_var)) );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 + e2 */
@@ -55,9 +55,9 @@ namespace viennamath
           if (val == 0.0)
             return rhs->simplify();
 
-          return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val),
-                                                   new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                   rhs->simplify());
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)),
+                                                   op_binary<op_plus<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(rhs->simplify()));
         }
         else if (rhs->is_constant())
         {
@@ -65,14 +65,14 @@ namespace viennamath
           if (val == 0.0)
             return lhs->simplify();
 
-          return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                   new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                   new rt_constant<NumericT, InterfaceType>(val));
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                   op_binary<op_plus<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)));
         }
 
-        return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                 new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                 rhs->simplify());
+        return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                 op_binary<op_plus<NumericT>, InterfaceType>(),
+                                                 std::auto_ptr<InterfaceType>(rhs->simplify()));
   }
 
   /** @brief Checks whether an expression of the form e1 + e2 can be simplified */
@@ -108,9 +108,9 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_minus<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( lhs->diff(diff_var),
-                                                new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                rhs->diff(diff_var) );
+      return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(lhs->diff(diff_var)),
+                                                op_binary<op_minus<NumericT>, InterfaceType>(),
+                                                std::auto_ptr<InterfaceType>(rhs->diff(diff_var)) );
   }
 
   /** @brief Implementation of the simplification procedures for an expression of the form e1 - e2 */
@@ -122,14 +122,14 @@ namespace viennamath
           NumericT val = lhs->unwrap();
           if (val == 0.0)
           {
-            return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(-1),
-                                                     new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                     rhs->simplify());
+            return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(-1)),
+                                                     op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                     std::auto_ptr<InterfaceType>(rhs->simplify()));
           }
 
-          return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val),
-                                                   new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                   rhs->simplify());
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)),
+                                                   op_binary<op_minus<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(rhs->simplify()));
         }
         else if (rhs->is_constant())
         {
@@ -137,14 +137,14 @@ namespace viennamath
           if (val == 0.0)
             return lhs->simplify();
 
-          return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                   new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                   new rt_constant<NumericT, InterfaceType>(val));
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                   op_binary<op_minus<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)));
         }
 
-        return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                 new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                 rhs->simplify());
+        return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                 op_binary<op_minus<NumericT>, InterfaceType>(),
+                                                 std::auto_ptr<InterfaceType>(rhs->simplify()));
   }
 
   /** @brief Checks whether an expression of the form e1 - e2 can be simplified */
@@ -182,13 +182,13 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_mult<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
-                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                  rhs->clone()),
-                                                new op_binary<op_plus<NumericT>, InterfaceType>(),
-                                                new rt_binary_expr<InterfaceType>(lhs->clone(),
-                                                                                  new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                  rhs->diff(diff_var) )
+      return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->diff(diff_var)),
+                                                                                  op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                                                  std::auto_ptr<InterfaceType>(rhs->clone()))),
+                                                op_binary<op_plus<NumericT>, InterfaceType>(),
+                                                std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->clone()),
+                                                                                  op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                                                  std::auto_ptr<InterfaceType>(rhs->diff(diff_var)) ))
                             );
   }
 
@@ -204,9 +204,9 @@ namespace viennamath
           if (val == 1.0)
             return rhs->simplify();
 
-          return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val),
-                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                   rhs->simplify());
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)),
+                                                   op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(rhs->simplify()));
         }
         else if (rhs->is_constant())
         {
@@ -216,9 +216,9 @@ namespace viennamath
           if (val == 1.0)
             return lhs->simplify();
 
-          return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                   new rt_constant<NumericT, InterfaceType>(val));
+          return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                   op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                   std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)));
         }
 
         rt_vector_expr<InterfaceType> const * lhs_vec = dynamic_cast<rt_vector_expr<InterfaceType> const *>(lhs);
@@ -227,9 +227,9 @@ namespace viennamath
         if (lhs_vec != NULL && rhs_vec != NULL)
           return (*lhs_vec * *rhs_vec).get()->clone();
 
-        return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                                 new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                 rhs->simplify());
+        return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                                 op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                 std::auto_ptr<InterfaceType>(rhs->simplify()));
   }
 
   /** @brief Checks whether an expression of the form e1 * e2 can be simplified */
@@ -284,18 +284,18 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * lhs, op_div<NumericT>, const InterfaceType * rhs, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>( new rt_binary_expr<InterfaceType>(lhs->diff(diff_var),
-                                                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                                                   rhs->clone()),
-                                                                                 new op_binary<op_minus<NumericT>, InterfaceType>(),
-                                                                                 new rt_binary_expr<InterfaceType>(lhs->clone(),
-                                                                                                                   new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                                                   rhs->diff(diff_var))
-                                                                         ),
-                                              new op_binary<op_div<NumericT>, InterfaceType>(),
-                                              new rt_binary_expr<InterfaceType>(rhs->clone(),
-                                                                                new op_binary<op_mult<NumericT>, InterfaceType>(),
-                                                                                rhs->clone())
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->diff(diff_var)),
+                                                                                                                   op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                                                                                   std::auto_ptr<InterfaceType>(rhs->clone()))),
+                                                                                 op_binary<op_minus<NumericT>, InterfaceType>(),
+                                                                                 std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->clone()),
+                                                                                                                   op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                                                                                   std::auto_ptr<InterfaceType>(rhs->diff(diff_var))))
+                                                                         )),
+                                              op_binary<op_div<NumericT>, InterfaceType>(),
+                                              std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(rhs->clone()),
+                                                                                op_binary<op_mult<NumericT>, InterfaceType>(),
+                                                                                std::auto_ptr<InterfaceType>(rhs->clone())))
                                          );
   }
 
@@ -309,9 +309,9 @@ namespace viennamath
       if (val == 0.0)
         return new rt_constant<NumericT, InterfaceType>(0.0);
 
-      return new rt_binary_expr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val),
-                                               new op_binary<op_div<NumericT>, InterfaceType>(),
-                                               rhs->simplify());
+      return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)),
+                                               op_binary<op_div<NumericT>, InterfaceType>(),
+                                               std::auto_ptr<InterfaceType>(rhs->simplify()));
     }
     else if (rhs->is_constant())
     {
@@ -319,14 +319,14 @@ namespace viennamath
       if (val == 1.0)
         return lhs->simplify();
 
-      return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                               new op_binary<op_div<NumericT>, InterfaceType>(),
-                                               new rt_constant<NumericT, InterfaceType>(val));
+      return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                               op_binary<op_div<NumericT>, InterfaceType>(),
+                                               std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(val)));
     }
 
-    return new rt_binary_expr<InterfaceType>(lhs->simplify(),
-                                             new op_binary<op_div<NumericT>, InterfaceType>(),
-                                             rhs->simplify());
+    return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->simplify()),
+                                             op_binary<op_div<NumericT>, InterfaceType>(),
+                                             std::auto_ptr<InterfaceType>(rhs->simplify()));
   }
 
   /** @brief Checks whether an expression of the form e1 / e2 can be simplified */
diff --git a/viennamath/manipulation/detail/unary_operations.hpp b/viennamath/manipulation/detail/unary_operations.hpp
index fcf4617..d11978f 100644
--- a/viennamath/manipulation/detail/unary_operations.hpp
+++ b/viennamath/manipulation/detail/unary_operations.hpp
@@ -51,60 +51,60 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_exp<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_exp<NumericT>, InterfaceType>()),
-                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var));
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()), op_unary<op_exp<NumericT>, InterfaceType>())),
+                                           op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                           std::auto_ptr<InterfaceType>(e->diff(diff_var)));
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime constant */
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> exp(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_exp<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_exp<default_numeric_type> >());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> exp(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                        new op_unary<op_exp<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                        op_unary<op_exp<default_numeric_type> >());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> exp(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_exp<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_exp<default_numeric_type> >());
   }
 
   /** @brief Overload of the exponential function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> exp(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_exp<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -116,46 +116,46 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sin<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_cos<NumericT>, InterfaceType>()),
-                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           e->diff(diff_var) );
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()), op_unary<op_cos<NumericT>, InterfaceType>())),
+                                           op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                           std::auto_ptr<InterfaceType>(e->diff(diff_var)) );
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime constant */
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> sin(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sin(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the sine function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> sin(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_sin<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_sin<default_numeric_type> >());
   }
 
   /** @brief Overload of the sine function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> sin(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_sin<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_sin<default_numeric_type> >());
   }
 
   /** @brief Overload of the sine function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> sin(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_sin<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_sin<default_numeric_type> >());
   }
 
 
@@ -163,21 +163,21 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sin(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sin(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the sine function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sin(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_sin<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -189,11 +189,11 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_cos<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(), new op_unary<op_sin<NumericT>, InterfaceType>()),
-                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>(-1),
-                                                                              new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                              e->diff(diff_var) )
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()), op_unary<op_sin<NumericT>, InterfaceType>())),
+                                           op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                           std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>(-1)),
+                                                                              op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                                                              std::auto_ptr<InterfaceType>(e->diff(diff_var)) ))
                                           );
   }
 
@@ -201,37 +201,37 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> cos(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> cos(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> cos(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_cos<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_cos<default_numeric_type> >());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> cos(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                        new op_unary<op_cos<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                        op_unary<op_cos<default_numeric_type> >());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> cos(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_cos<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_cos<default_numeric_type> >());
   }
 
 
@@ -239,21 +239,21 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> cos(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> cos(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the cosine function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> cos(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_cos<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   //
@@ -264,13 +264,13 @@ namespace viennamath
   InterfaceType * diff_impl(const InterfaceType * e, op_tan<NumericT>, const InterfaceType * diff_var)
   {
     // 1/cos^2(e):
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
-                                              new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                              new rt_binary_expr<InterfaceType>( new rt_unary_expr<InterfaceType>(e->clone(),
-                                                                                                                  new op_unary<op_cos<NumericT>, InterfaceType>()),
-                                                                                 new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                                 new rt_unary_expr<InterfaceType>(e->clone(),
-                                                                                                                  new op_unary<op_cos<NumericT>, InterfaceType>()) )
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(e->diff(diff_var)),
+                                              op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                              std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()),
+                                                                                                                  op_unary<op_cos<NumericT>, InterfaceType>())),
+                                                                                 op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                                                                 std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()),
+                                                                                                                  op_unary<op_cos<NumericT>, InterfaceType>())) ))
                                             );
   }
 
@@ -278,58 +278,58 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> tan(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> tan(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> tan(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_tan<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_tan<default_numeric_type> >());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> tan(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_tan<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_tan<default_numeric_type> >());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> tan(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_tan<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_tan<default_numeric_type> >());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> tan(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> tan(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the tangent function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> tan(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_tan<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -348,37 +348,37 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> fabs(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> fabs(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> fabs(ct_variable<id> const &)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_fabs<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_fabs<default_numeric_type> >());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> fabs(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_fabs<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_fabs<default_numeric_type> >());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> fabs(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_fabs<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_fabs<default_numeric_type> >());
   }
 
 
@@ -386,21 +386,21 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> fabs(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> fabs(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the modulus function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> fabs(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_fabs<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -411,13 +411,13 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_sqrt<NumericT>, const InterfaceType * diff_var)
   {
-      return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
-                                             new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                             new rt_binary_expr<InterfaceType>( new rt_constant<NumericT>(2),
-                                                                             new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                             new rt_unary_expr<InterfaceType>(e->clone(),
-                                                                                                           new op_unary<op_sqrt<NumericT>, InterfaceType>())
-                                                                           )
+      return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(e->diff(diff_var)),
+                                             op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                             std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_constant<NumericT>(2)),
+                                                                             op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                                                             std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(e->clone()),
+                                                                                                           op_unary<op_sqrt<NumericT>, InterfaceType>()))
+                                                                           ))
                                             );
   }
 
@@ -425,37 +425,37 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> sqrt(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sqrt(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> sqrt(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_sqrt<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_sqrt<default_numeric_type> >());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> sqrt(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_sqrt<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_sqrt<default_numeric_type> >());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> sqrt(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_sqrt<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_sqrt<default_numeric_type> >());
   }
 
 
@@ -463,21 +463,21 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sqrt(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sqrt(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the square-root function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> sqrt(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_sqrt<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   //
@@ -487,9 +487,9 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
-                                           new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           new rt_unary_expr<InterfaceType>(e->clone())
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(e->diff(diff_var)),
+                                           op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                           std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(e->clone()))
                                          );
   }
 
@@ -497,58 +497,58 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> log(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> log(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_log<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_log<default_numeric_type> >());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> log(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_log<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_log<default_numeric_type> >());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> log(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_log<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_log<default_numeric_type> >());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the natural logarithm function for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_log<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -564,12 +564,12 @@ namespace viennamath
   template <typename InterfaceType, typename NumericT>
   InterfaceType * diff_impl(const InterfaceType * e, op_log10<NumericT>, const InterfaceType * diff_var)
   {
-    return new rt_binary_expr<InterfaceType>( e->diff(diff_var),
-                                           new op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                           new rt_binary_expr<InterfaceType>( new rt_constant<NumericT, InterfaceType>( ::log(10.0) ),
-                                                                           new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
-                                                                           new rt_unary_expr<InterfaceType>(e->clone())
-                                                                         )
+    return new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(e->diff(diff_var)),
+                                           op_binary<op_div<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                           std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>( std::auto_ptr<InterfaceType>(new rt_constant<NumericT, InterfaceType>( ::log(10.0) )),
+                                                                           op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(),
+                                                                           std::auto_ptr<InterfaceType>(new rt_unary_expr<InterfaceType>(e->clone()))
+                                                                         ))
                                           );
   }
 
@@ -577,58 +577,58 @@ namespace viennamath
   template <typename NumericT, typename InterfaceType>
   rt_unary_expr<InterfaceType> log10(rt_constant<NumericT, InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath runtime variable */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log10(rt_variable<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath compiletime variable */
   template <id_type id>
   rt_unary_expr<> log10(ct_variable<id> const & /*other*/)
   {
-    return rt_unary_expr<>(new rt_variable<>(id), new op_unary<op_log10<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_variable<>(id)), op_unary<op_log10<default_numeric_type> >());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath compiletime binary expression */
   template <typename LHS, typename OP, typename RHS>
   rt_unary_expr<> log10(ct_binary_expr<LHS, OP, RHS> const & other)
   {
-    return rt_unary_expr<>(new rt_binary_expr<>(other),
-                           new op_unary<op_log10<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_binary_expr<>(other)),
+                           op_unary<op_log10<default_numeric_type> >());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath compiletime unary expression */
   template <typename LHS, typename OP>
   rt_unary_expr<> log10(ct_unary_expr<LHS, OP> const & other)
   {
-    return rt_unary_expr<>(new rt_unary_expr<>(other),
-                           new op_unary<op_log10<default_numeric_type> >());
+    return rt_unary_expr<>(std::auto_ptr<default_interface_type>(new rt_unary_expr<>(other)),
+                           op_unary<op_log10<default_numeric_type> >());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log10(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log10(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the logarithm with base 10 for a ViennaMath runtime expression wrapper */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> log10(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_log10<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -645,18 +645,14 @@ namespace viennamath
     const FunctionSymbolType * ptr = dynamic_cast< const FunctionSymbolType *>(diff_var);
     if (ptr != NULL)
     {
-      InterfaceType * c0 = new rt_constant<NumericT, InterfaceType>(0);
-      InterfaceType * new_expr = e->diff(diff_var);
+      std::auto_ptr<InterfaceType> c0(new rt_constant<NumericT, InterfaceType>(0));
+      std::auto_ptr<InterfaceType> new_expr(e->diff(diff_var));
 
-      if (new_expr->deep_equal(c0)) // grad(0) is directly compressed to 0
-      {
-        delete new_expr;
-        return c0;
-      }
+      if (new_expr->deep_equal(c0.get())) // grad(0) is directly compressed to 0
+        return c0.release();
 
       // return grad(...)
-      delete c0;
-      return new rt_unary_expr<InterfaceType>(e->diff(diff_var), new op_unary<op_gradient<NumericT>, InterfaceType>());
+      return new rt_unary_expr<InterfaceType>(new_expr, op_unary<op_gradient<NumericT>, InterfaceType>());
     }
 
     throw expression_not_differentiable_exception("Cannot differentiate gradient operator!");
@@ -667,14 +663,14 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_function_symbol<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the gradient function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> grad(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_gradient<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
@@ -693,28 +689,28 @@ namespace viennamath
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> div(rt_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.get()->clone(), new op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.get()->clone()), op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the divergence function for a ViennaMath runtime unary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> div(rt_unary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the divergence function for a ViennaMath runtime binary expression */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> div(rt_binary_expr<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
   /** @brief Overload of the divergence function for a ViennaMath runtime function symbol */
   template <typename InterfaceType>
   rt_unary_expr<InterfaceType> div(rt_function_symbol<InterfaceType> const & other)
   {
-    return rt_unary_expr<InterfaceType>(other.clone(), new op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
+    return rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()), op_unary<op_divergence<typename InterfaceType::numeric_type>, InterfaceType>());
   }
 
 
diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 6a8bd51..8080adf 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -61,6 +61,13 @@ namespace viennamath
                                                          op_(op),
                                                          rhs_(rhs) {}
 
+      /** @brief Takes ownership of 'lhs' and 'rhs' even if the construction fails. The operation is copied. */
+      rt_binary_expr(std::auto_ptr<InterfaceType> lhs,
+                     op_interface_type const & op,
+                     std::auto_ptr<InterfaceType> rhs) : lhs_(lhs),
+                                                         op_(op.clone()),
+                                                         rhs_(rhs) {}
+
       template <typename LHS, typename OP, typename RHS>
       explicit rt_binary_expr(ct_binary_expr<LHS, OP, RHS> const & other) : op_(new op_binary<OP, InterfaceType>())
       {
@@ -331,7 +338,7 @@ namespace viennamath
 
       ///////// other interface requirements ////////////////////////
       /** @brief Returns a copy of the binary expression. The caller is responsible for deleting the returned object. */
-      InterfaceType * clone() const { return new rt_binary_expr(lhs_->clone(), op_->clone(), rhs_->clone()); }
+      InterfaceType * clone() const { return new rt_binary_expr(std::auto_ptr<InterfaceType>(lhs_->clone()), *op_, std::auto_ptr<InterfaceType>(rhs_->clone())); }
 
       /** @brief Returns a detailed string describing the binary expression. Acts recursively. */
       std::string deep_str() const
@@ -372,9 +379,9 @@ namespace viennamath
         if (deep_equal(e))
           return repl->clone();
 
-        return new rt_binary_expr(lhs_->substitute(e, repl),
-                               op_->clone(),
-                               rhs_->substitute(e, repl) );
+        return new rt_binary_expr(std::auto_ptr<InterfaceType>(lhs_->substitute(e, repl)),
+                                  *op_,
+                                  std::auto_ptr<InterfaceType>(rhs_->substitute(e, repl)) );
       };
 
       /** @brief If one of the expressions in 'e' equals to this binary expression, the respective replacement 'repl' is returned. Otherwise, a copy of *this is returned. Note that the caller must ensure proper deletion of the returned object. */
@@ -385,9 +392,9 @@ namespace viennamath
           if (deep_equal(e[i]))
             return repl[i]->clone();
 
-        return new rt_binary_expr(lhs_->substitute(e, repl),
-                               op_->clone(),
-                               rhs_->substitute(e, repl) );
+        return new rt_binary_expr(std::auto_ptr<InterfaceType>(lhs_->substitute(e, repl)),
+                                  *op_,
+                                  std::auto_ptr<InterfaceType>(rhs_->substitute(e, repl)) );
       };
 
 
@@ -423,9 +430,9 @@ namespace viennamath
         if (fw.modifies(this))
           return fw(this);
 
-        return new rt_binary_expr(lhs_->recursive_manipulation(fw),
-                               op_->clone(),
-                               rhs_->recursive_manipulation(fw) );
+        return new rt_binary_expr(std::auto_ptr<InterfaceType>(lhs_->recursive_manipulation(fw)),
+                                  *op_,
+                                  std::auto_ptr<InterfaceType>(rhs_->recursive_manipulation(fw)) );
       }
 
       /** @brief Recursively traverses the expression by calling the wrapper for each object without manipulating it. */
@@ -465,9 +472,9 @@ namespace viennamath
   InterfaceType * op_unary<T, InterfaceType>::simplify(const InterfaceType * lhs,
                                                        const InterfaceType * rhs) const
   {
-    return new rt_binary_expr<InterfaceType>(lhs->clone(),
-                                          new op_unary<T, InterfaceType>(),
-                                          rhs->clone());
+    return new rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs->clone()),
+                                             *this,
+                                             std::auto_ptr<InterfaceType>(rhs->clone()));
   }
 
 }
diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 6f1e71f..25d51ed 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -108,8 +108,8 @@ namespace viennamath
     typedef op_rt_integral<InterfaceType>    OperatorT;
     OperatorT op(interv, var);
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.get()->clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(op))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.get()->clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(op))
                                  );
   }
 
@@ -122,8 +122,8 @@ namespace viennamath
     typedef op_rt_integral<InterfaceType>    OperatorT;
     OperatorT op(interv, rt_variable<InterfaceType>(id));
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.get()->clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(op))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.get()->clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(op))
                                  );
   }
 
@@ -136,8 +136,8 @@ namespace viennamath
     typedef op_rt_integral<InterfaceType>    OperatorT;
     OperatorT op(interv, rt_variable<InterfaceType>(id));
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(op))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(op))
                                  );
   }
 
@@ -196,8 +196,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.get()->clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.get()->clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
@@ -208,8 +208,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
@@ -220,8 +220,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
@@ -232,8 +232,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
@@ -244,8 +244,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
@@ -256,8 +256,8 @@ namespace viennamath
   {
     typedef op_rt_symbolic_integral<InterfaceType>    OperatorT;
 
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(integrand.clone(),
-                                                                   new op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(integrand.clone()),
+                                                                   op_unary<OperatorT, InterfaceType>(OperatorT(interv)))
                                  );
   }
 
diff --git a/viennamath/runtime/operations/function_symbol.hpp b/viennamath/runtime/operations/function_symbol.hpp
index 5387450..a885bb4 100644
--- a/viennamath/runtime/operations/function_symbol.hpp
+++ b/viennamath/runtime/operations/function_symbol.hpp
@@ -40,14 +40,14 @@ namespace viennamath
     template <typename NumericT, typename InterfaceType>
     rt_binary_expr<InterfaceType> operator*(rt_constant<NumericT, InterfaceType> const & lhs, rt_function_symbol<InterfaceType> const & rhs)
     {
-      return rt_binary_expr<InterfaceType>(lhs.clone(), new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), rhs.clone());
+      return rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs.clone()), op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), std::auto_ptr<InterfaceType>(rhs.clone()));
     }
 
     /** @brief Special overload for the multiplication of a function symbol with a ViennaMath runtime expression wrapper */
     template <typename InterfaceType>
     rt_binary_expr<InterfaceType> operator*(rt_expr<InterfaceType> const & lhs, rt_function_symbol<InterfaceType> const & rhs)
     {
-      return rt_binary_expr<InterfaceType>(lhs.get()->clone(), new op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), rhs.clone());
+      return rt_binary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(lhs.get()->clone()), op_binary<op_mult<typename InterfaceType::numeric_type>, InterfaceType>(), std::auto_ptr<InterfaceType>(rhs.clone()));
     }
 
     ////// operator/
diff --git a/viennamath/runtime/operations/rt_rt.hpp b/viennamath/runtime/operations/rt_rt.hpp
index 39e45fb..9d145fe 100644
--- a/viennamath/runtime/operations/rt_rt.hpp
+++ b/viennamath/runtime/operations/rt_rt.hpp
@@ -77,7 +77,7 @@ namespace viennamath
       typedef typename iface_type::numeric_type      numeric_type;
       typedef rt_binary_expr<iface_type>             type;
 
-      static type instance(LHS const & lhs, RHS const & rhs) { return type(traits::clone<iface_type>(lhs), new op_binary<op_plus<numeric_type>, iface_type>(), traits::clone<iface_type>(rhs)); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(std::auto_ptr<iface_type>(traits::clone<iface_type>(lhs)), op_binary<op_plus<numeric_type>, iface_type>(), std::auto_ptr<iface_type>(traits::clone<iface_type>(rhs))); }
     };
 
     /** @brief Returns the type when subtracting two expressions. Default case: both types are runtime expressions. */
@@ -88,7 +88,7 @@ namespace viennamath
       typedef typename iface_type::numeric_type      numeric_type;
       typedef rt_binary_expr<iface_type>             type;
 
-      static type instance(LHS const & lhs, RHS const & rhs) { return type(traits::clone<iface_type>(lhs), new op_binary<op_minus<numeric_type>, iface_type>(), traits::clone<iface_type>(rhs)); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(std::auto_ptr<iface_type>(traits::clone<iface_type>(lhs)), op_binary<op_minus<numeric_type>, iface_type>(), std::auto_ptr<iface_type>(traits::clone<iface_type>(rhs))); }
     };
 
     /** @brief Returns the type when multiplying two expressions. Default case: both types are runtime expressions. */
@@ -99,7 +99,7 @@ namespace viennamath
       typedef typename iface_type::numeric_type      numeric_type;
       typedef rt_binary_expr<iface_type>             type;
 
-      static type instance(LHS const & lhs, RHS const & rhs) { return type(traits::clone<iface_type>(lhs), new op_binary<op_mult<numeric_type>, iface_type>(), traits::clone<iface_type>(rhs)); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(std::auto_ptr<iface_type>(traits::clone<iface_type>(lhs)), op_binary<op_mult<numeric_type>, iface_type>(), std::auto_ptr<iface_type>(traits::clone<iface_type>(rhs))); }
     };
 
     /** @brief Returns the type when dividing two expressions. Default case: both types are runtime expressions. */
@@ -110,7 +110,7 @@ namespace viennamath
       typedef typename iface_type::numeric_type      numeric_type;
       typedef rt_binary_expr<iface_type>             type;
 
-      static type instance(LHS const & lhs, RHS const & rhs) { return type(traits::clone<iface_type>(lhs), new op_binary<op_div<numeric_type>, iface_type>(), traits::clone<iface_type>(rhs)); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(std::auto_ptr<iface_type>(traits::clone<iface_type>(lhs)), op_binary<op_div<numeric_type>, iface_type>(), std::auto_ptr<iface_type>(traits::clone<iface_type>(rhs))); }
     };
 
   }
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index d861e4d..95b4d53 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -60,6 +60,11 @@ namespace viennamath
       explicit rt_unary_expr(InterfaceType * lhs) : expr_(lhs),
                                                  op_(new op_unary_id_type()) {}
 
+      /** @brief Takes ownership of 'lhs' even if the construction fails. The operation is copied. */
+      rt_unary_expr(std::auto_ptr<InterfaceType> lhs,
+                    op_interface_type const & op) : expr_(lhs),
+                                                    op_(op.clone()) {}
+
       template <typename LHS, typename OP>
       explicit rt_unary_expr(ct_unary_expr<LHS, OP> const & other) : op_(new OP())
       {
@@ -218,13 +223,13 @@ namespace viennamath
           if (op_->can_simplify())
             return new rt_constant<numeric_type, InterfaceType>( op_->apply(expr_->unwrap()) );
           else
-            return new rt_unary_expr(new rt_constant<numeric_type, InterfaceType>(expr_->unwrap()),
-                                     op_->clone());
+            return new rt_unary_expr(std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(expr_->unwrap())),
+                                     *op_);
         }
 
         //TODO: Unwrap op_id()
 
-        return new rt_unary_expr(expr_->simplify(), op_->clone());
+        return new rt_unary_expr(std::auto_ptr<InterfaceType>(expr_->simplify()), *op_);
       }
 
       /** @brief Returns true if the expression can be simplified */
@@ -241,7 +246,7 @@ namespace viennamath
 
       ///////// other interface requirements ////////////////////////
       /** @brief Returns a copy of the unary expression. The caller is responsible for deleting the returned object. */
-      InterfaceType * clone() const { return new rt_unary_expr(expr_->clone(), op_->clone()); }
+      InterfaceType * clone() const { return new rt_unary_expr(std::auto_ptr<InterfaceType>(expr_->clone()), *op_); }
 
       /** @brief Returns a detailed string describing the unary expression. Acts recursively. */
       std::string deep_str() const
@@ -275,8 +280,8 @@ namespace viennamath
         if (deep_equal(e))
           return repl->clone();
 
-        return new rt_unary_expr(expr_->substitute(e, repl),
-                              op_->clone());
+        return new rt_unary_expr(std::auto_ptr<InterfaceType>(expr_->substitute(e, repl)),
+                                 *op_);
       };
 
       /** @brief If one of the expressions in 'e' equals to this unary expression, the respective replacement 'repl' is returned. Otherwise, a copy of *this is returned. Note that the caller must ensure proper deletion of the returned object. */
@@ -287,8 +292,8 @@ namespace viennamath
           if (deep_equal(e[i]))
             return repl[i]->clone();
 
-        return new rt_unary_expr(expr_->substitute(e, repl),
-                              op_->clone());
+        return new rt_unary_expr(std::auto_ptr<InterfaceType>(expr_->substitute(e, repl)),
+                                 *op_);
       };
 
       /** @brief Performs a detailed comparison of the unary expression with the passed expression. Returns true if they represent the same expression (equal IDs, etc.) */
@@ -322,8 +327,8 @@ namespace viennamath
         if (fw.modifies(this))
           return fw(this);
 
-        return new rt_unary_expr(expr_->recursive_manipulation(fw),
-                              op_->clone() );
+        return new rt_unary_expr(std::auto_ptr<InterfaceType>(expr_->recursive_manipulation(fw)),
+                                 *op_);
       }
 
       /** @brief Recursively traverses the expression by calling the wrapper for each object without manipulating it. */
-- 
2.43.0


From 71619085af8f5af6ba0e40001f228111aa593392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 02/25] fix: assignment of intervals and equations is
 all-or-nothing and returns

rt_interval::operator= had no return statement (undefined behaviour), and
a failing allocation left intervals and equations half assigned.
---
 viennamath/runtime/equation.hpp | 10 ++++++++++
 viennamath/runtime/interval.hpp |  7 +++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index aaf99fb..4bdabe9 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -42,6 +42,16 @@ namespace viennamath
       rt_equation(const rt_expr<InterfaceType> & lhs,
                   const rt_expr<InterfaceType> & rhs) : lhs_(lhs.get()->clone()), rhs_(rhs.get()->clone()) {}
 
+      /** @brief Copies both sides before replacing either of them, so a failure leaves the equation unchanged. */
+      rt_equation & operator=(rt_equation const & other)
+      {
+        std::auto_ptr<InterfaceType> new_lhs(other.lhs_.get() != NULL ? other.lhs_.get()->clone() : NULL);
+        std::auto_ptr<InterfaceType> new_rhs(other.rhs_.get() != NULL ? other.rhs_.get()->clone() : NULL);
+        lhs_ = new_lhs.release();
+        rhs_ = new_rhs.release();
+        return *this;
+      }
+
       /** @brief Returns the left hand side of the equation */
       rt_expr<InterfaceType> const & lhs() const { return lhs_; }
       /** @brief Returns the right hand side of the equation */
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 2f1b5d2..5abf3b8 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -54,8 +54,11 @@ namespace viennamath
 
       rt_interval const & operator=(rt_interval const & other)
       {
-        lower_ = other.lower().get()->clone();
-        upper_ = other.upper().get()->clone();
+        std::auto_ptr<InterfaceType> new_lower(other.lower().get()->clone());
+        std::auto_ptr<InterfaceType> new_upper(other.upper().get()->clone());
+        lower_ = new_lower.release();
+        upper_ = new_upper.release();
+        return *this;
       };
 
     private:
-- 
2.43.0


From e5d8db9a92551af46c25018fde2516d59a06459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 03/25] fix: rt_expr assignment from empty expressions and
 compile-time variables

Assigning an empty rt_expr dereferenced NULL; assigning a ct_variable tried
to create a constant from its id.
---
 viennamath/runtime/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/expr.hpp b/viennamath/runtime/expr.hpp
index f2d767e..57e601d 100644
--- a/viennamath/runtime/expr.hpp
+++ b/viennamath/runtime/expr.hpp
@@ -128,7 +128,7 @@ namespace viennamath
 
       rt_expr & operator=(rt_expr const & other)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(other.get()->clone());
+        rt_expr_ = std::auto_ptr<InterfaceType>(other.get() != NULL ? other.get()->clone() : NULL);
         return *this;
       }
 
@@ -161,7 +161,7 @@ namespace viennamath
       template <id_type id>
       rt_expr & operator=(ct_variable<id> const &)
       {
-        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_constant<InterfaceType>(id));
+        rt_expr_ = std::auto_ptr<InterfaceType>(new rt_variable<InterfaceType>(id));
         return *this;
       }
 
-- 
2.43.0


From 71091ae032020d041ad632d7277918a7f97fc124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 04/25] fix: assignment of unary and binary expressions

Copy assignment of rt_unary_expr referred to a member that does not exist,
assigning a number or constant to a rt_binary_expr produced an expression
that throws when evaluated, compile-time expressions with variables could
not be assigned, and a failing allocation left the target torn or null.
---
 viennamath/runtime/binary_expr.hpp | 69 +++++++++---------------------
 viennamath/runtime/unary_expr.hpp  | 22 ++++------
 2 files changed, 30 insertions(+), 61 deletions(-)

diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 8080adf..344682d 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -164,75 +164,39 @@ namespace viennamath
                                                rhs_(other.rhs_->clone()) {}
 
       //assignments:
+      // Note: The new operands are set up completely before the old ones are replaced, so a failure leaves the expression unchanged.
       template <typename LHS, typename OP, typename RHS>
       rt_binary_expr & operator=(ct_binary_expr<LHS, OP, RHS> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
-      }
-
-      template <typename LHS, typename OP, long value>
-      rt_binary_expr & operator=(ct_binary_expr<LHS, OP, ct_constant<value> > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.lhs()));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
+        rt_binary_expr temp(other);
+        return take_from(temp);
       }
 
-      template <long value, typename OP, typename RHS>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value>, OP, RHS > const & other)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_ = std::auto_ptr<op_interface_type>(new op_binary<OP, InterfaceType>());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_binary_expr<InterfaceType>(other.rhs()));
-        return *this;
-      }
-
-      template <long value1, typename OP, long value2>
-      rt_binary_expr & operator=(ct_binary_expr<ct_constant<value1>, OP, ct_constant<value2> > const &)
-      {
-        //std::cout << "Constructing from expression " << other << std::endl;
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(OP().apply(value1, value2)));
-        return *this;
-      }
-
-
       rt_binary_expr & operator=(rt_binary_expr const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.lhs()->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op()->clone());
-        rhs_ = std::auto_ptr<InterfaceType>(other.rhs()->clone());
-        return *this;
+        rt_binary_expr temp(other);
+        return take_from(temp);
       }
 
+      // A binary expression represents a constant c as c + 0:
       template <typename ScalarType>
       rt_binary_expr & operator=(rt_constant<ScalarType> const & other)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(other.clone());
-        return *this;
+        rt_binary_expr temp(std::auto_ptr<InterfaceType>(other.clone()),
+                            op_binary<op_plus<numeric_type>, InterfaceType>(),
+                            std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(0)));
+        return take_from(temp);
       }
 
       template <long value>
       rt_binary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
       rt_binary_expr & operator=(numeric_type value)
       {
-        lhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        rhs_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type, InterfaceType>(value));
-        return *this;
+        return *this = rt_constant<numeric_type, InterfaceType>(value);
       }
 
       const InterfaceType      * lhs() const { return lhs_.get(); }
@@ -449,6 +413,15 @@ namespace viennamath
       }
 
     private:
+      /** @brief Replaces the operands and the operation by those of 'other'. Does not throw. */
+      rt_binary_expr & take_from(rt_binary_expr & other)
+      {
+        lhs_ = other.lhs_;
+        op_  = other.op_;
+        rhs_ = other.rhs_;
+        return *this;
+      }
+
       /** @brief The left hand side operand */
       std::auto_ptr<InterfaceType>         lhs_;
       /** @brief The operation */
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 95b4d53..2d26463 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -80,7 +80,7 @@ namespace viennamath
                                                                       op_(new op_unary_id_type()) {}
 
       template <long value>
-      explicit rt_unary_expr(ct_constant<value> const & other) : expr_(other.clone()),
+      explicit rt_unary_expr(ct_constant<value> const & /*other*/) : expr_(new rt_constant<numeric_type, InterfaceType>(value)),
                                                               op_(new op_unary_id_type()) {}
 
       //Copy CTOR:
@@ -91,37 +91,33 @@ namespace viennamath
       template <typename LHS, typename OP>
       rt_unary_expr & operator=(ct_unary_expr<LHS, OP> const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs().clone());
-        op_ = std::auto_ptr<op_interface_type>(new OP());
-        return *this;
+        return *this = rt_unary_expr(other);
       }
 
       rt_unary_expr & operator=(rt_unary_expr const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.lhs_->clone());
-        op_  = std::auto_ptr<op_interface_type>(other.op_->clone());
+        std::auto_ptr<InterfaceType>     new_expr(other.expr_->clone());
+        std::auto_ptr<op_interface_type> new_op(other.op_->clone());
+        expr_ = new_expr;
+        op_   = new_op;
         return *this;
       }
 
       template <typename ScalarType>
       rt_unary_expr & operator=(rt_constant<ScalarType> const & other)
       {
-        expr_ = std::auto_ptr<InterfaceType>(other.clone());
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        return *this;
+        return *this = rt_unary_expr(other);
       }
 
       template <long value>
       rt_unary_expr & operator=(ct_constant<value> const &)
       {
-        return *this = value;
+        return *this = static_cast<numeric_type>(value);
       }
 
       rt_unary_expr & operator=(numeric_type value)
       {
-        expr_ = std::auto_ptr<InterfaceType>(new rt_constant<numeric_type>(value));
-        op_  = std::auto_ptr<op_interface_type>(new op_unary_id_type());
-        return *this;
+        return *this = rt_unary_expr(rt_constant<numeric_type, InterfaceType>(value));
       }
 
       /** @brief Returns the expression the unary function is acting on */
-- 
2.43.0


From 0d7636864ac19bc29f0ff598edb92e3f596c8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:25 +0000
Subject: [PATCH 05/25] fix: rt_vector_expr comparison, simplification and
 failure safety

deep_equal() read past the end when the sizes differ (and called a longer
vector equal to its prefix), the entries were never simplified because the
overriders had kept the former names optimize()/optimizable(), partly built
copies leaked when an entry could not be copied, and a failing assignment
left the vector half assigned.
---
 viennamath/runtime/vector_expr.hpp | 40 ++++++++++++++++++------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index b3bd26d..06419ad 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -57,6 +57,14 @@ namespace viennamath
           BaseType::operator[](i) = viennamath::rt_constant<numeric_type, interface_type>(0);
       }
 
+      /** @brief Copies all entries before replacing the old ones, so a failure leaves the vector unchanged. */
+      self_type & operator=(self_type const & other)
+      {
+        self_type temp(other);
+        BaseType::swap(temp);
+        return *this;
+      }
+
       /** @brief Operator overload for adding a vector expression from another vector expression. */
       self_type operator+(self_type const & other) const
       {
@@ -88,13 +96,13 @@ namespace viennamath
        */
       InterfaceType * clone() const
       {
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           //(*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->clone());
           (*result)[i] = (*this)[i];
 
-        return result;
+        return result.release();
       }
 
       /** @brief Returns a detailed string describing objects of this type. Acts recursively on the expression. */
@@ -139,9 +147,9 @@ namespace viennamath
         if (dynamic_cast< const self_type * >(other) != NULL)
         {
           const self_type * temp = dynamic_cast< const self_type * >(other);
-          bool is_equal = true;
+          bool is_equal = (BaseType::size() == temp->size());
 
-          for (std::size_t i=0; i<temp->size(); ++i)
+          for (std::size_t i=0; is_equal && i<temp->size(); ++i)
             is_equal = is_equal && (*this)[i].get()->deep_equal( (*temp)[i].get() );
 
 
@@ -164,12 +172,12 @@ namespace viennamath
         if (deep_equal(e))
           return repl->clone();
 
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl));
 
-        return result;
+        return result.release();
       };
 
       /** @brief Recursively substititues any of the expressions from 'e' by the corresponding replacement in 'repl' */
@@ -180,30 +188,30 @@ namespace viennamath
           if (deep_equal(e[i]))
             return repl[i]->clone();
 
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->substitute(e, repl));
 
-        return result;
+        return result.release();
       };
 
       /** @brief Returns the optimized expression (constants collected, trivial operations removed, etc.) */
-      InterfaceType * optimize() const
+      InterfaceType * simplify() const
       {
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
-          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->optimize());
+          (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->simplify());
 
-        return result;
+        return result.release();
       }
 
       /** @brief Returns true if the expression can be simplified by collecting constants, removing trivial operations, etc. */
-      bool optimizable() const
+      bool can_simplify() const
       {
         for (std::size_t i=0; i<BaseType::size(); ++i)
-          if ( (*this)[i].get()->optimizable() == true )
+          if ( (*this)[i].get()->can_simplify() == true )
             return true;
 
         return false;
@@ -212,12 +220,12 @@ namespace viennamath
       /** @brief Returns the differentiated expression. Note that the returned pointer is not automatically deleted, thus the caller is responsible for proper deletion. */
       InterfaceType * diff(const InterfaceType * diff_var) const
       {
-        self_type * result = new self_type(BaseType::size());
+        std::auto_ptr<self_type> result(new self_type(BaseType::size()));
 
         for (std::size_t i=0; i<result->size(); ++i)
           (*result)[i] = viennamath::rt_expr<InterfaceType>((*this)[i].get()->diff(diff_var));
 
-        return result;
+        return result.release();
       }
 
 
-- 
2.43.0


From 4e07faee69b59c7d3240e3a2c76413be7c6c46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 06/25] fix: integrals over different intervals or variables
 compare equal

As for partial derivatives, the parameters of the operation have to be
compared; otherwise substitute() replaces the wrong integral.
---
 viennamath/runtime/integral.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index 25d51ed..f640feb 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -94,6 +94,16 @@ namespace viennamath
       viennamath::rt_variable<InterfaceType> integration_variable_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two integral operations for equality with respect to interval and integration variable */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_integral<InterfaceType> const & lhs, op_rt_integral<InterfaceType> const & rhs)
+  {
+    return    lhs.variable().deep_equal(&rhs.variable())
+           && lhs.interval().lower().get()->deep_equal(rhs.interval().lower().get())
+           && lhs.interval().upper().get()->deep_equal(rhs.interval().upper().get());
+  }
+
 
 
   //
@@ -185,6 +195,14 @@ namespace viennamath
       viennamath::rt_symbolic_interval<InterfaceType> interval_;
   };
 
+  //needed for comparison of unary expressions:
+  /** @brief Compares two symbolic integral operations for equality with respect to the symbolic interval */
+  template <typename InterfaceType>
+  bool unary_op_equal(op_rt_symbolic_integral<InterfaceType> const & lhs, op_rt_symbolic_integral<InterfaceType> const & rhs)
+  {
+    return lhs.interval().id() == rhs.interval().id();
+  }
+
 
   //
   // Convenience functions with symbolic integrals
-- 
2.43.0


From 84832c91c3c63e52efe7782aa7a6daacc8ea110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 07/25] fix: message of variable_index_out_of_bounds_exception

what() returned a pointer into a string that was already destroyed.
---
 viennamath/exception.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/viennamath/exception.hpp b/viennamath/exception.hpp
index e5ce131..b1096ae 100644
--- a/viennamath/exception.hpp
+++ b/viennamath/exception.hpp
@@ -122,19 +122,21 @@ namespace viennamath
    */
   class variable_index_out_of_bounds_exception : public std::exception
   {
-    const char * what() const throw()
-    {
-      std::stringstream ss;
-      ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id_ << ", vector_size=" << vector_size_ << std::endl;
-      return ss.str().c_str();
-    }
-
     public:
-      variable_index_out_of_bounds_exception(long id, long vector_size) : id_(id), vector_size_(vector_size) {}
+      variable_index_out_of_bounds_exception(long id, long vector_size)
+      {
+        std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);
+        ss << "Encountered an variable<> type with id larger or equal to the size of the supplied vector of values. id=" << id << ", vector_size=" << vector_size << std::endl;
+        message_ = ss.str();
+      }
+
+      virtual ~variable_index_out_of_bounds_exception() throw() {}
+
+      const char * what() const throw() { return message_.c_str(); }
 
     private:
-      long id_;
-      long vector_size_;
+      std::string message_;
   };
 
 
-- 
2.43.0


From 36145b305881edf65473e434b3af9b89470e8f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 08/25] fix: recursive_traversal of unary expressions honours
 step_into()

---
 viennamath/runtime/unary_expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 2d26463..5eec1d2 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -331,7 +331,8 @@ namespace viennamath
       void recursive_traversal(rt_traversal_wrapper<InterfaceType> const & fw) const
       {
         fw(this);
-        expr_->recursive_traversal(fw);
+        if (fw.step_into(this))
+          expr_->recursive_traversal(fw);
       }
 
     private:
-- 
2.43.0


From 3f1519efdbcddc23fadce9d12b20b3236e16ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 09/25] fix: numerical quadrature of symbolic integrals, copies
 of empty rules

A symbolic integral dereferenced a NULL pointer instead of being reported;
copying a default-constructed quadrature object (which exists to support
STL containers) did as well.
---
 viennamath/runtime/numerical_quadrature.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/viennamath/runtime/numerical_quadrature.hpp b/viennamath/runtime/numerical_quadrature.hpp
index b04694d..79ac90c 100644
--- a/viennamath/runtime/numerical_quadrature.hpp
+++ b/viennamath/runtime/numerical_quadrature.hpp
@@ -116,13 +116,13 @@ namespace viennamath
 
 
       // Copy CTOR:
-      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_->clone()) {}
+      rt_numerical_quadrature(const rt_numerical_quadrature & other) : quadrature_rule_(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL) {}
 
 
       // Copy CTOR:
       rt_numerical_quadrature & operator=(const rt_numerical_quadrature & other)
       {
-        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_->clone());
+        quadrature_rule_ = std::auto_ptr<numerical_quadrature_interface<InterfaceType> >(other.quadrature_rule_.get() != NULL ? other.quadrature_rule_->clone() : NULL);
         return *this;
       }
 
@@ -151,11 +151,7 @@ namespace viennamath
             const SymbolicIntegrationOperation * op_symb_tmp = dynamic_cast<const SymbolicIntegrationOperation *>(integral_expression->op());
 
             if (op_symb_tmp != NULL)
-            {
-              return quadrature_rule_->eval(op_tmp->op().interval(),
-                                            rt_expr<InterfaceType>(integral_expression->lhs()->clone()),
-                                            op_tmp->op().variable());
-            }
+              throw symbolic_integral_evaluation_not_possible_exception();
 
             //std::cerr << "ERROR: No integral encountered in numerical quadrature!" << std::endl;
             //std::cerr << e << std::endl;
-- 
2.43.0


From 090f0e56c7926b9fc39a7c95570e692759300f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 10/25] fix: LaTeX translator keeps customisations when copied
 and owns its processors

Copying a translator dropped the customised strings, assigning one caused a
double deletion, and operator() for runtime constants did not compile.
---
 viennamath/manipulation/latex.hpp | 51 +++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index ef06ebe..b6239a3 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -102,7 +102,33 @@ namespace viennamath
       typedef viennamath::rt_interval<InterfaceType>                         Interval;
 
       typedef rt_latex_processor_interface<InterfaceType>                    ProcessorInterface;
-      typedef std::vector< ProcessorInterface *>                             ProcessorArray;
+
+      /** @brief An array of pointers to processors which owns the processors. */
+      class ProcessorArray : public std::vector< ProcessorInterface *>
+      {
+          typedef std::vector< ProcessorInterface *>   BaseType;
+
+        public:
+          ProcessorArray() {}
+
+          ~ProcessorArray()
+          {
+            for (typename BaseType::iterator it = BaseType::begin(); it != BaseType::end(); ++it)
+              delete *it;
+          }
+
+          /** @brief Takes ownership of the processor, even in the case of a failure. */
+          void push_back(ProcessorInterface * proc_ptr)
+          {
+            std::auto_ptr<ProcessorInterface> proc(proc_ptr);
+            BaseType::push_back(proc_ptr);
+            proc.release();
+          }
+
+        private:
+          ProcessorArray(ProcessorArray const &);
+          ProcessorArray & operator=(ProcessorArray const &);
+      };
 
     public:
 
@@ -125,14 +151,11 @@ namespace viennamath
         }
       }
 
-      ~rt_latex_translator()
+      rt_latex_translator & operator=(rt_latex_translator const & other)
       {
-        for (typename ProcessorArray::iterator it = processors_.begin();
-                                               it != processors_.end();
-                                             ++it)
-        {
-          delete *it;
-        }
+        rt_latex_translator temp(other);
+        processors_.swap(temp.processors_);
+        return *this;
       }
 
       //
@@ -148,7 +171,7 @@ namespace viennamath
       std::string operator()(UnaryExpr  const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
 
       template <typename ScalarType>
-      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(e, use_parenthesis); }
+      std::string operator()(viennamath::rt_constant<ScalarType, InterfaceType> const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Variable   const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(FuncSymbol const & e, bool use_parenthesis = false) const { return process_impl(&e, use_parenthesis); }
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
@@ -455,7 +478,7 @@ namespace viennamath
       typedef viennamath::rt_variable<InterfaceType>                         Variable;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_variable_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -473,7 +496,8 @@ namespace viennamath
         if (dynamic_cast< const Variable * >(ptr) != NULL)
         {
           const Variable * temp = dynamic_cast< const Variable * >(ptr);
-          variable_strings_[temp->id()] = str;
+          std::string new_str(str);
+          variable_strings_[temp->id()].swap(new_str);
           return true;
         }
         return false;
@@ -512,7 +536,7 @@ namespace viennamath
       typedef std::pair<id_type, id_type>           KeyType;
 
     public:
-      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(); }
+      rt_latex_processor_interface<InterfaceType> * clone() const { return new rt_latex_function_symbol_processor(*this); }
 
       std::string process(InterfaceType const * ptr, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
@@ -531,7 +555,8 @@ namespace viennamath
         {
           const FuncSymbol * temp = dynamic_cast< const FuncSymbol * >(ptr);
           KeyType key(temp->id(), temp->tag_id());
-          function_symbol_strings_[key] = str;
+          std::string new_str(str);
+          function_symbol_strings_[key].swap(new_str);
           return true;
         }
         return false;
-- 
2.43.0


From 0d0fe9abcf6cfcc0bcc6ff7aed9e45b787ddac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 11/25] fix: no leak when an aborted function symbol derivative
 or interval substitution is unwound

---
 viennamath/manipulation/diff.hpp       | 8 ++++----
 viennamath/manipulation/substitute.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 5d52a3a..9dbb0d8 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -123,8 +123,8 @@ namespace viennamath
                               rt_variable<InterfaceType> const & var)
   {
     typedef op_partial_deriv<typename InterfaceType::numeric_type> d_dx_type;
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(other.clone(),
-                                                                   new op_unary<d_dx_type, InterfaceType>(d_dx_type(var.id()))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()),
+                                                                   op_unary<d_dx_type, InterfaceType>(d_dx_type(var.id()))
                                                                   )
                                  );
   }
@@ -135,8 +135,8 @@ namespace viennamath
                               ct_variable<id> const &)
   {
     typedef op_partial_deriv<typename InterfaceType::numeric_type> d_dx_type;
-    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(other.clone(),
-                                                                   new op_unary<d_dx_type, InterfaceType>(d_dx_type(id))
+    return rt_expr<InterfaceType>(new rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(other.clone()),
+                                                                   op_unary<d_dx_type, InterfaceType>(d_dx_type(id))
                                                                   )
                                  );
   }
diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index ab80b62..84d12a4 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,7 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const * ptr) : ptr_(ptr) {}
+        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const & op) : op_(op) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -310,7 +310,7 @@ namespace viennamath
             if (op_ptr != NULL)
             {
               //std::cout << "Modifies!" << std::endl;
-              return new viennamath::rt_unary_expr<InterfaceType>(ex_ptr->lhs()->clone(), ptr_->clone());
+              return new viennamath::rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(ex_ptr->lhs()->clone()), op_);
             }
           }
 
@@ -337,7 +337,7 @@ namespace viennamath
         }
 
       private:
-        std::auto_ptr<const op_unary<op_rt_integral<InterfaceType>, InterfaceType> > ptr_;
+        op_unary<op_rt_integral<InterfaceType>, InterfaceType> op_;
     };
   } //namespace detail
 
@@ -354,7 +354,7 @@ namespace viennamath
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(new op_unary<OperatorT>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(op_unary<OperatorT, InterfaceType>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From 05c5469e3ab71f94900de84675cfe1c7a878570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 12/25] fix: textual representations are not silently truncated
 when memory runs out

---
 viennamath/compiletime/ct_constant.hpp        | 1 +
 viennamath/compiletime/ct_function_symbol.hpp | 2 ++
 viennamath/compiletime/unary_op_tags.hpp      | 1 +
 viennamath/manipulation/latex.hpp             | 7 +++++++
 viennamath/runtime/binary_expr.hpp            | 1 +
 viennamath/runtime/constant.hpp               | 1 +
 viennamath/runtime/function_symbol.hpp        | 1 +
 viennamath/runtime/integral.hpp               | 2 ++
 viennamath/runtime/unary_expr.hpp             | 1 +
 viennamath/runtime/variable.hpp               | 1 +
 viennamath/runtime/vector_expr.hpp            | 1 +
 11 files changed, 19 insertions(+)

diff --git a/viennamath/compiletime/ct_constant.hpp b/viennamath/compiletime/ct_constant.hpp
index 2ae23ea..eb61113 100644
--- a/viennamath/compiletime/ct_constant.hpp
+++ b/viennamath/compiletime/ct_constant.hpp
@@ -49,6 +49,7 @@ namespace viennamath
       std::string str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "ct_constant<" << value_ << ">";
         return ss.str();
       }
diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 7560817..8d190f0 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -41,6 +41,7 @@ namespace viennamath
     static std::string str()
     {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
       ss << "unknown[" << ct_id << "]";
       return ss.str();
     }
@@ -55,6 +56,7 @@ namespace viennamath
     static std::string str()
     {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
       ss << "test[" << ct_id << "]";
       return ss.str();
     }
diff --git a/viennamath/compiletime/unary_op_tags.hpp b/viennamath/compiletime/unary_op_tags.hpp
index 367d28f..9484ced 100644
--- a/viennamath/compiletime/unary_op_tags.hpp
+++ b/viennamath/compiletime/unary_op_tags.hpp
@@ -225,6 +225,7 @@ namespace viennamath
       std::string str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "partial_deriv<" << id_ << ">";
         return ss.str();
       }
diff --git a/viennamath/manipulation/latex.hpp b/viennamath/manipulation/latex.hpp
index b6239a3..04aa3c3 100644
--- a/viennamath/manipulation/latex.hpp
+++ b/viennamath/manipulation/latex.hpp
@@ -177,6 +177,7 @@ namespace viennamath
       std::string operator()(Equation   const & e, bool use_parenthesis = false) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << operator()(e.lhs()) << " = " << operator()(e.rhs());
         (void)use_parenthesis; //to silence unused parameter warnings
         return ss.str();
@@ -184,6 +185,7 @@ namespace viennamath
       std::string operator()(Interval   const & e, bool use_parenthesis = false) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << " [ " << operator()(e.lower()) << "; " << operator()(e.upper()) << " ] ";
         (void)use_parenthesis; //to silence unused parameter warnings
         return ss.str();
@@ -277,6 +279,7 @@ namespace viennamath
       std::string process_impl(BinaryExpr const & e, bool use_parenthesis, rt_latex_translator<InterfaceType> const & translator) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         viennamath::rt_expr<InterfaceType> lhs(e.lhs()->clone());
         viennamath::rt_expr<InterfaceType> rhs(e.rhs()->clone());
 
@@ -366,6 +369,7 @@ namespace viennamath
         typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType>         OpSymbolicIntegration;
 
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         viennamath::rt_expr<InterfaceType> lhs(e.lhs()->clone());
 
         if (dynamic_cast< const OpId * >(e.op()) != NULL)
@@ -457,6 +461,7 @@ namespace viennamath
       std::string process_impl(Constant const & e, bool /*use_parenthesis*/, rt_latex_translator<InterfaceType> const & /*translator*/) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << " " << static_cast<NumericType>(e) << " ";
         return ss.str();
       }
@@ -508,6 +513,7 @@ namespace viennamath
       std::string process_impl(Variable const & e, bool /*use_parenthesis*/, rt_latex_translator<InterfaceType> const & /*translator*/) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
 
         std::map<id_type, std::string>::const_iterator it = variable_strings_.find(e.id());
         if (it != variable_strings_.end())
@@ -567,6 +573,7 @@ namespace viennamath
       std::string process_impl(FuncSymbol const & e, bool /*use_parenthesis*/, rt_latex_translator<InterfaceType> const & /*translator*/) const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
 
         KeyType func_symb_id(e.id(), e.tag_id());
         std::map<KeyType, std::string>::const_iterator it = function_symbol_strings_.find(func_symb_id);
diff --git a/viennamath/runtime/binary_expr.hpp b/viennamath/runtime/binary_expr.hpp
index 344682d..2b9b68e 100644
--- a/viennamath/runtime/binary_expr.hpp
+++ b/viennamath/runtime/binary_expr.hpp
@@ -308,6 +308,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "(";
         ss << lhs_->deep_str();
         ss << op_->str();
diff --git a/viennamath/runtime/constant.hpp b/viennamath/runtime/constant.hpp
index 4334213..12aa43b 100644
--- a/viennamath/runtime/constant.hpp
+++ b/viennamath/runtime/constant.hpp
@@ -78,6 +78,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "constant(" << s << ")";
         return ss.str();
       }
diff --git a/viennamath/runtime/function_symbol.hpp b/viennamath/runtime/function_symbol.hpp
index d9f82bc..90207de 100644
--- a/viennamath/runtime/function_symbol.hpp
+++ b/viennamath/runtime/function_symbol.hpp
@@ -79,6 +79,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "function_symbol<";
         if (tag_id_ == unknown_tag<>::tag_id())
           ss << "unknown(" << id_ << ")>";
diff --git a/viennamath/runtime/integral.hpp b/viennamath/runtime/integral.hpp
index f640feb..472a6d1 100644
--- a/viennamath/runtime/integral.hpp
+++ b/viennamath/runtime/integral.hpp
@@ -71,6 +71,7 @@ namespace viennamath
       std::string str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
 
         ss << "rt_integral[" << interval_ << ", " << integration_variable_ << "]";
         return ss.str();
@@ -173,6 +174,7 @@ namespace viennamath
       std::string str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
 
         ss << "symbolic_integral[" << interval_ << "]";
         return ss.str();
diff --git a/viennamath/runtime/unary_expr.hpp b/viennamath/runtime/unary_expr.hpp
index 5eec1d2..50e8f4f 100644
--- a/viennamath/runtime/unary_expr.hpp
+++ b/viennamath/runtime/unary_expr.hpp
@@ -248,6 +248,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << op_->str();
         ss << "(";
         ss << expr_->deep_str();
diff --git a/viennamath/runtime/variable.hpp b/viennamath/runtime/variable.hpp
index 388e57a..44b41ec 100644
--- a/viennamath/runtime/variable.hpp
+++ b/viennamath/runtime/variable.hpp
@@ -172,6 +172,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << "variable(" << id_ << ")";
         return ss.str();
       }
diff --git a/viennamath/runtime/vector_expr.hpp b/viennamath/runtime/vector_expr.hpp
index 06419ad..3f542c1 100644
--- a/viennamath/runtime/vector_expr.hpp
+++ b/viennamath/runtime/vector_expr.hpp
@@ -109,6 +109,7 @@ namespace viennamath
       std::string deep_str() const
       {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit);  // do not silently truncate the string
         ss << *this;
         return ss.str();
       }
-- 
2.43.0


From ee1a5add483fbb6f9e10bb3d88e3d473dfeb780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:57 +0000
Subject: [PATCH 13/25] fix: sums of compile-time sums and runtime constants
 compile

---
 viennamath/compiletime/operations/ct_constant.hpp | 8 ++++----
 viennamath/runtime/operations/constant.hpp        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_constant.hpp b/viennamath/compiletime/operations/ct_constant.hpp
index ae359f7..dd7a4fb 100644
--- a/viennamath/compiletime/operations/ct_constant.hpp
+++ b/viennamath/compiletime/operations/ct_constant.hpp
@@ -43,7 +43,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 + X) -> [ct_c1 + ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -70,7 +70,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_plus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value + other.lhs()), other.rhs());
+                          RHS >(result_constant(value + static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 + (ct_c2 - X) -> [ct_c1 + ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -109,7 +109,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_minus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 + X) -> [ct_c1 - ct_c2] - X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
@@ -136,7 +136,7 @@ namespace viennamath
     typedef rt_constant< typename promote_traits<long, op_minus<default_numeric_type>, ScalarType>::result_type >   result_constant;
     return ct_binary_expr<result_constant,
                           op_plus<default_numeric_type>,
-                          RHS >(result_constant(value - other.lhs()), other.rhs());
+                          RHS >(result_constant(value - static_cast<ScalarType>(other.lhs())), other.rhs());
   }
 
   /** @brief Special overload:  ct_c1 - (ct_c2 - X) -> [ct_c1 - ct_c2] + X, where ct_c1 and ct_c2 are compiletime constants and X is any other expression */
diff --git a/viennamath/runtime/operations/constant.hpp b/viennamath/runtime/operations/constant.hpp
index d00ef5d..8c9c0a8 100644
--- a/viennamath/runtime/operations/constant.hpp
+++ b/viennamath/runtime/operations/constant.hpp
@@ -122,10 +122,10 @@ namespace viennamath
     operator+(ct_binary_expr<ct_constant<value>, op_minus<default_numeric_type>, RHS> const & lhs,
               rt_constant<ScalarType, InterfaceType> const & other)
     {
-      typedef rt_constant<ScalarType, InterfaceType>    result_constant;
+      typedef rt_constant<default_numeric_type, InterfaceType>    result_constant;
       return ct_binary_expr<result_constant,
                             op_minus<default_numeric_type>,
-                            RHS >(result_constant(value + other),
+                            RHS >(result_constant(value + static_cast<ScalarType>(other)),
                                   lhs.rhs());
     }
 
-- 
2.43.0


From a962c12074bf2e27f0e3df8e20a02527b7e4039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:25 +0000
Subject: [PATCH 14/25] fix: quotients and sums of compile-time expressions
 keep the values of runtime constants

---
 viennamath/compiletime/operations/ct_ct.hpp   |  8 ++---
 viennamath/compiletime/operations/ct_expr.hpp | 30 ++++++++++++++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/viennamath/compiletime/operations/ct_ct.hpp b/viennamath/compiletime/operations/ct_ct.hpp
index 6eb3a95..e3a3eb5 100644
--- a/viennamath/compiletime/operations/ct_ct.hpp
+++ b/viennamath/compiletime/operations/ct_ct.hpp
@@ -40,7 +40,7 @@ namespace viennamath
                              op_plus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for subtracting two compiletime expressions */
@@ -51,7 +51,7 @@ namespace viennamath
                              op_minus<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for multiplying two compiletime expressions */
@@ -62,7 +62,7 @@ namespace viennamath
                              op_mult<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
     /** @brief Metafunction for dividing two compiletime expressions */
@@ -73,7 +73,7 @@ namespace viennamath
                              op_div<default_numeric_type>,
                              RHS >              type;
 
-      static type instance(LHS const & /*lhs*/, RHS const & /*rhs*/) { return type(); }
+      static type instance(LHS const & lhs, RHS const & rhs) { return type(lhs, rhs); }
     };
 
   }
diff --git a/viennamath/compiletime/operations/ct_expr.hpp b/viennamath/compiletime/operations/ct_expr.hpp
index 1aa3b59..4735643 100644
--- a/viennamath/compiletime/operations/ct_expr.hpp
+++ b/viennamath/compiletime/operations/ct_expr.hpp
@@ -154,9 +154,37 @@ namespace viennamath
 
   /////////////////////////////////// operator/ ///////////////////////////////////
 
+      namespace detail
+      {
+        /** @brief Metafunction checking for runtime constants in a compiletime expression. Expressions of the same type may then have different values. */
+        template <typename T>
+        struct has_rt_constant
+        {
+          enum { value = false };
+        };
+
+        template <typename ScalarType, typename InterfaceType>
+        struct has_rt_constant< rt_constant<ScalarType, InterfaceType> >
+        {
+          enum { value = true };
+        };
+
+        template <typename LHS, typename OP, typename RHS>
+        struct has_rt_constant< ct_binary_expr<LHS, OP, RHS> >
+        {
+          enum { value = has_rt_constant<LHS>::value || has_rt_constant<RHS>::value };
+        };
+
+        template <typename LHS, typename OP>
+        struct has_rt_constant< ct_unary_expr<LHS, OP> >
+        {
+          enum { value = has_rt_constant<LHS>::value };
+        };
+      }
+
       /** @brief Special overload: division of the same thing leads to '1' */
       template <typename LHS, typename OP, typename RHS>
-      ct_constant<1>
+      typename enable_if<!detail::has_rt_constant< ct_binary_expr<LHS, OP, RHS> >::value, ct_constant<1> >::type
       operator/(ct_binary_expr<LHS, OP, RHS> const & /*lhs*/,
                 ct_binary_expr<LHS, OP, RHS> const & /*other*/)
       {
-- 
2.43.0


From dc51c1255037f39d8c7b85966561db56e528eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:37 +0000
Subject: [PATCH 15/25] fix: substituting a symbolic interval replaces the
 integrals over that interval only

The ID of the symbolic interval to be replaced was ignored, so integrals over
other symbolic intervals were replaced as well.
---
 viennamath/manipulation/substitute.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennamath/manipulation/substitute.hpp b/viennamath/manipulation/substitute.hpp
index 84d12a4..4358b38 100644
--- a/viennamath/manipulation/substitute.hpp
+++ b/viennamath/manipulation/substitute.hpp
@@ -296,7 +296,8 @@ namespace viennamath
     class integral_substitution_functor : public viennamath::rt_manipulation_interface<InterfaceType>
     {
       public:
-        integral_substitution_functor(op_unary<op_rt_integral<InterfaceType>, InterfaceType> const & op) : op_(op) {}
+        integral_substitution_functor(rt_symbolic_interval<InterfaceType> const & search,
+                                      op_unary<op_rt_integral<InterfaceType>, InterfaceType> const & op) : search_(search), op_(op) {}
 
 
         InterfaceType * operator()(InterfaceType const * e) const
@@ -307,7 +308,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "Modifies!" << std::endl;
               return new viennamath::rt_unary_expr<InterfaceType>(std::auto_ptr<InterfaceType>(ex_ptr->lhs()->clone()), op_);
@@ -327,7 +328,7 @@ namespace viennamath
             typedef op_unary<op_rt_symbolic_integral<InterfaceType>, InterfaceType> const *  OpPtrType;
 
             OpPtrType op_ptr = dynamic_cast< OpPtrType >(ex_ptr->op());
-            if (op_ptr != NULL)
+            if (op_ptr != NULL && op_ptr->op().interval().id() == search_.id())
             {
               //std::cout << "FOUND!" << std::endl;
               return true;
@@ -337,6 +338,7 @@ namespace viennamath
         }
 
       private:
+        rt_symbolic_interval<InterfaceType> search_;
         op_unary<op_rt_integral<InterfaceType>, InterfaceType> op_;
     };
   } //namespace detail
@@ -348,13 +350,13 @@ namespace viennamath
    * @param e          The expression on which the substitution is carried out
    */
   template <typename InterfaceType, typename PairType>
-  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & /*search*/,
+  rt_expr<InterfaceType> substitute(rt_symbolic_interval<InterfaceType> const & search,
                                     PairType const & repl,
                                     rt_expr<InterfaceType> const & e)
   {
     typedef op_rt_integral<InterfaceType>    OperatorT;
 
-    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(op_unary<OperatorT, InterfaceType>(OperatorT(repl.first, repl.second))) );
+    viennamath::rt_manipulation_wrapper<> fun( new detail::integral_substitution_functor<InterfaceType>(search, op_unary<OperatorT, InterfaceType>(OperatorT(repl.first, repl.second))) );
 
     rt_expr<InterfaceType> temp(e.get()->recursive_manipulation(fun));
 
-- 
2.43.0


From 66c6852a8ab9644d65e73b035d7cecc7bb8d1cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 16/25] fix: evaluating a compile-time variable checks its
 index

---
 viennamath/manipulation/eval.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/manipulation/eval.hpp b/viennamath/manipulation/eval.hpp
index 12cd769..7d46437 100644
--- a/viennamath/manipulation/eval.hpp
+++ b/viennamath/manipulation/eval.hpp
@@ -284,9 +284,9 @@ namespace viennamath
    * @param v         Either a single number (typically of type double) or a vector type offering bracket-access (e.g. std::vector<>)
    */
   template <id_type id, typename VectorType>
-  default_numeric_type eval(ct_variable<id> /*c*/, VectorType const & v)
+  default_numeric_type eval(ct_variable<id> c, VectorType const & v)
   {
-    return v[id];
+    return c(v);   // checks the index
   }
 
   /** @brief Evaluation of a ViennaMath compiletime variable using a compiletime vector with one entry */
-- 
2.43.0


From ac5edc9297420be1a183e19a5ad190a85936725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 17/25] fix: make str() of ct_function_symbol accessible to its
 stream output

The output operator calls the function, which was private, so no compile-time function symbol could be written to a stream.
---
 viennamath/compiletime/ct_function_symbol.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennamath/compiletime/ct_function_symbol.hpp b/viennamath/compiletime/ct_function_symbol.hpp
index 8d190f0..55fff4a 100644
--- a/viennamath/compiletime/ct_function_symbol.hpp
+++ b/viennamath/compiletime/ct_function_symbol.hpp
@@ -77,6 +77,7 @@ namespace viennamath
   template <typename Tag>
   class ct_function_symbol
   {
+    public:
       static std::string str()
       {
         return Tag::str();
-- 
2.43.0


From 159286ac5cf9fabc1e731a0d64d745f98d7c578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 18/25] fix: rational arithmetic at compile time truncated
 numerators and denominators to int

---
 viennamath/forwards.h                |  4 +--
 viennamath/manipulation/simplify.hpp | 52 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/viennamath/forwards.h b/viennamath/forwards.h
index 62d5a75..69be73e 100644
--- a/viennamath/forwards.h
+++ b/viennamath/forwards.h
@@ -657,14 +657,14 @@ namespace viennamath
     template <long a, long b>
     struct gcd
     {
-      static const int value = gcd<b, a % b>::value;
+      static const long value = gcd<b, a % b>::value;
     };
 
     /** @brief Specialization for the computation of the greatest common divisor of a and 0, which is a */
     template <long a>
     struct gcd <a, 0>
     {
-      static const int value = a;
+      static const long value = a;
     };
 
     /** @brief Specialization forcing a compile time error, since the greatest common divisor of 0 and 0 is not defined. */
diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 343b618..47c7fce 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -365,8 +365,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 + numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -384,8 +384,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 + numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 + numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -403,8 +403,8 @@ namespace viennamath
                           >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 + value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 + value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -426,8 +426,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * denominator_2 - numerator_2 * denominator_1;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -444,8 +444,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2 - numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * denominator_2 - numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -462,8 +462,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 - value_2 * denominator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 - value_2 * denominator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -480,8 +480,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -502,8 +502,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * numerator_2;
-        static const int denominator = denominator_1 * denominator_2;
+        static const long numerator = numerator_1 * numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -520,8 +520,8 @@ namespace viennamath
                                           > >
       {
         static const int value = 1;
-        static const int numerator = value_1 * numerator_2;
-        static const int denominator = denominator_2;
+        static const long numerator = value_1 * numerator_2;
+        static const long denominator = denominator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -538,8 +538,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * value_2;
-        static const int denominator = denominator_1;
+        static const long numerator = numerator_1 * value_2;
+        static const long denominator = denominator_1;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -559,8 +559,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1 * denominator_2;
-        static const int denominator = denominator_1 * numerator_2;
+        static const long numerator = numerator_1 * denominator_2;
+        static const long denominator = denominator_1 * numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -577,8 +577,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = value_1 * denominator_2;
-        static const int denominator = numerator_2;
+        static const long numerator = value_1 * denominator_2;
+        static const long denominator = numerator_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
@@ -595,8 +595,8 @@ namespace viennamath
                                           >  >
       {
         static const int value = 1;
-        static const int numerator = numerator_1;
-        static const int denominator = denominator_1 * value_2;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * value_2;
 
         typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
                                 op_div<NumericT>,
-- 
2.43.0


From f1528f964f13e984081834664501d76daf9af7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:00 +0000
Subject: [PATCH 19/25] fix: simplify() was ambiguous for every compile-time
 expression

---
 viennamath/manipulation/simplify.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 47c7fce..0996cb9 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -962,7 +962,8 @@ namespace viennamath
 
   /** @brief Returns a new, simplified expression. */
   template <typename T>
-  T simplify(T const & e)
+  typename enable_if<!result_of::is_compiletime<T>::value, T>::type
+  simplify(T const & e)
   {
     //do nothing, since primitive types cannot be simplified
     return e;
-- 
2.43.0


From 2d54f2af8b3ea7901df67121d8029dfdcb564abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:53 +0000
Subject: [PATCH 20/25] fix: compile-time integration treated every variable as
 the integration variable

---
 viennamath/manipulation/integrate.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index 0828d82..fa438d3 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -294,6 +294,7 @@ namespace viennamath
         typedef typename ct_function_symbol<TAG>::ERROR_INTEGRATION_OF_FUNCTION_SYMBOL_NOT_SUPPORTED    type;
       };
 
+      // any other variable is a constant with respect to the integration variable
       template <typename LowerBound, typename UpperBound,
                 id_type id,
                 typename VariableType>
@@ -301,6 +302,26 @@ namespace viennamath
                             ct_variable<id>,
                             VariableType
                             >
+      {
+        typedef ct_binary_expr<UpperBound,
+                              op_minus<default_numeric_type>,
+                              LowerBound
+                              >                    interval_length;
+
+        typedef ct_binary_expr< ct_variable<id>,
+                                op_mult<default_numeric_type>,
+                                interval_length
+                              >    integrated_type;
+
+        typedef typename viennamath::result_of::simplify<integrated_type>::type   type;
+      };
+
+      template <typename LowerBound, typename UpperBound,
+                id_type id>
+      struct integrate_impl <LowerBound, UpperBound,
+                            ct_variable<id>,
+                            ct_variable<id>
+                            >
       {
         typedef ct_binary_expr< ct_binary_expr<UpperBound,
                                               op_mult<default_numeric_type>,
-- 
2.43.0


From e936fd5450e64e72c924f7acbfd5cdf784100282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:23 +0000
Subject: [PATCH 21/25] fix: ambiguous specialisations in the compile-time
 simplification of rational constants

---
 viennamath/manipulation/simplify.hpp | 309 +++++++++++++++++++++++++--
 1 file changed, 296 insertions(+), 13 deletions(-)

diff --git a/viennamath/manipulation/simplify.hpp b/viennamath/manipulation/simplify.hpp
index 0996cb9..9a8192f 100644
--- a/viennamath/manipulation/simplify.hpp
+++ b/viennamath/manipulation/simplify.hpp
@@ -645,24 +645,14 @@ namespace viennamath
       };
 
       //resolve ambiguity:
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<1>,
-                                          op_minus<NumericT>,
-                                          ct_constant<0>
-                                          >  >
-      {
-        static const int value = 1;
-        typedef ct_constant<1>   type;
-      };
-
-      template <typename NumericT>
-      struct simplify_impl< ct_binary_expr<ct_constant<-1>,
+      template <long value_1, typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_1>,
                                           op_minus<NumericT>,
                                           ct_constant<0>
                                           >  >
       {
         static const int value = 1;
-        typedef ct_constant<-1>   type;
+        typedef ct_constant<value_1>   type;
       };
 
 
@@ -778,6 +768,299 @@ namespace viennamath
       };
 
 
+      ///////////////////// Resolve ambiguities between the elimination of trivial operations and the evaluation of rational expressions ////////////////////////////////
+
+      // 0 + a/b and a/b + 0:
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      // 0 + (0 - X), (0 - X) + 0 and (0 - X) - 0:
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_plus<NumericT>,
+                                          ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>,
+                                          op_plus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>,
+                                          op_minus<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<0>, op_minus<NumericT>, RHS>   type;
+      };
+
+      // 0 * a/b and a/b * 0, 1 * a/b and a/b * 1:
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      // 0 * 1/X and 1/X * 0, 1 * 1/X and 1/X * 1:
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>   type;
+      };
+
+      template <typename NumericT, typename RHS>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, RHS>   type;
+      };
+
+      // the same for 1/b:
+
+      template <typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<0>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<1>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      template <typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      // a * 1/b and 1/b * a:
+
+      template <long value_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<value_>,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_;
+        static const long denominator = denominator_;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      template <typename NumericT, long denominator_, long value_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_mult<NumericT>,
+                                          ct_constant<value_>
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = value_;
+        static const long denominator = denominator_;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // a/b * 1/d, 1/b * c/d and 1/b * 1/d:
+
+      template <long numerator_1, typename NumericT, long denominator_1, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      template <typename NumericT, long denominator_1, long numerator_2, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_2>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = numerator_2;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      template <typename NumericT, long denominator_1, long denominator_2>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_1> >,
+                                          op_mult<NumericT>,
+                                          ct_binary_expr<ct_constant<1>, op_div<NumericT>, ct_constant<denominator_2> >
+                                          > >
+      {
+        static const int value = 1;
+        static const long numerator = 1;
+        static const long denominator = denominator_1 * denominator_2;
+
+        typedef ct_binary_expr< ct_constant< numerator / result_of::gcd<numerator, denominator>::value >,
+                                op_div<NumericT>,
+                                ct_constant<denominator / result_of::gcd<numerator, denominator>::value > >        type;
+      };
+
+      // 0 / (a/b), (a/b) / 1 and 0 / (-1):
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
+      template <long numerator_, typename NumericT, long denominator_>
+      struct simplify_impl< ct_binary_expr<ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >,
+                                          op_div<NumericT>,
+                                          ct_constant<1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_binary_expr<ct_constant<numerator_>, op_div<NumericT>, ct_constant<denominator_> >   type;
+      };
+
+      template <typename NumericT>
+      struct simplify_impl< ct_binary_expr<ct_constant<0>,
+                                          op_div<NumericT>,
+                                          ct_constant<-1>
+                                          > >
+      {
+        static const int value = 1;
+        typedef ct_constant<0>   type;
+      };
+
     } //namespace detail
 
     ////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From b12a426b2ad6e8f1f4e8c217f4c3c45a2c81d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 22/25] fix: compile-time vectors of one or two entries held
 references to their arguments

---
 viennamath/compiletime/ct_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viennamath/compiletime/ct_vector.hpp b/viennamath/compiletime/ct_vector.hpp
index 7f0c4b9..e9d369f 100644
--- a/viennamath/compiletime/ct_vector.hpp
+++ b/viennamath/compiletime/ct_vector.hpp
@@ -54,7 +54,7 @@ namespace viennamath
       size_t size() const { return 1; }
 
     private:
-      T0 const & t0_;
+      T0 t0_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with one entry to an output stream */
@@ -98,8 +98,8 @@ namespace viennamath
       std::size_t size() const { return 2; }
 
     private:
-      T0 const & t0_;
-      T1 const & t1_;
+      T0 t0_;
+      T1 t1_;
   };
 
   /** @brief Convenience functionality for printing a compiletime vector with two entries to an output stream */
-- 
2.43.0


From 70691dc34f58ea53350f87791e1e60dfe37d6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 23/25] fix: compile-time integration rejected polynomials from
 which simplification had factored out -1

---
 viennamath/manipulation/integrate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennamath/manipulation/integrate.hpp b/viennamath/manipulation/integrate.hpp
index fa438d3..ea76e0d 100644
--- a/viennamath/manipulation/integrate.hpp
+++ b/viennamath/manipulation/integrate.hpp
@@ -364,9 +364,10 @@ namespace viennamath
       typedef ct_binary_expr<LHS, OP, RHS>                                        IntegrandType;
       typedef typename viennamath::result_of::expand<IntegrandType>::type         expanded_integrand;
       typedef typename viennamath::result_of::simplify<expanded_integrand>::type  simplified_integrand;
+      typedef typename viennamath::result_of::expand<simplified_integrand>::type  prepared_integrand;  // simplification may have factored out -1
 
       typedef typename detail::integrate_impl<LowerBound, UpperBound,
-                                              simplified_integrand,
+                                              prepared_integrand,
                                               VariableType>::type    type;
 
     };
-- 
2.43.0


From 72f14377e6491151032caf211e3b6ad644271c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:45 +0000
Subject: [PATCH 24/25] fix: derivative of a runtime variable could not be
 called (template parameters not deducible)

---
 viennamath/manipulation/diff.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/viennamath/manipulation/diff.hpp b/viennamath/manipulation/diff.hpp
index 9dbb0d8..ab4fe8c 100644
--- a/viennamath/manipulation/diff.hpp
+++ b/viennamath/manipulation/diff.hpp
@@ -207,8 +207,7 @@ namespace viennamath
   //////////// derivative of a variable: /////////////////////////////////
 
   /** @brief Overload for computing the derivative of a runtime variable */
-  template <id_type other_id, typename InterfaceType,
-            id_type id>
+  template <typename InterfaceType>
   rt_constant<typename InterfaceType::numeric_type> diff(rt_variable<InterfaceType> const & c,
                                                          rt_variable<InterfaceType> const & var)
   {
-- 
2.43.0


From 5580205dfb9fa71ab0fe43457bbf7a9d2c482d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:13 +0000
Subject: [PATCH 25/25] fix: equations of a number and a runtime constant could
 not be made (template parameter not deducible)

---
 viennamath/runtime/equation.hpp | 2 +-
 viennamath/runtime/interval.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennamath/runtime/equation.hpp b/viennamath/runtime/equation.hpp
index 4bdabe9..9d28ebf 100644
--- a/viennamath/runtime/equation.hpp
+++ b/viennamath/runtime/equation.hpp
@@ -82,7 +82,7 @@ namespace viennamath
 
   ////// scalar is first argument:
   /** @brief Generator for an equation with a (floating point) constant as left hand side and a ViennaMath runtime constant as right hand side */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_equation<InterfaceType> make_equation(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_equation<InterfaceType>(lhs, rhs);
diff --git a/viennamath/runtime/interval.hpp b/viennamath/runtime/interval.hpp
index 5abf3b8..dedbaa5 100644
--- a/viennamath/runtime/interval.hpp
+++ b/viennamath/runtime/interval.hpp
@@ -94,7 +94,7 @@ namespace viennamath
   }
 
   /** @brief Creates an interval, where the upper bound is given by a ViennaMath constant */
-  template <typename NumericT, typename InterfaceType, typename RHSType>
+  template <typename NumericT, typename InterfaceType>
   rt_interval<InterfaceType> make_interval(typename InterfaceType::numeric_type lhs, rt_constant<NumericT, InterfaceType> const & rhs)
   {
     return rt_interval<InterfaceType>(lhs, rhs);
-- 
2.43.0

