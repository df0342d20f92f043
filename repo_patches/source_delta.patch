From 905c9da8e7876b2141fd380ef396883951016f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 01/29] fix: shortcuts for neutral constants must not replace
 the operand's chain

---
 src/add.F90   | 4 ++--
 src/div.F90   | 2 +-
 src/hypot.F90 | 4 ++--
 src/mul.F90   | 4 ++--
 src/sub.F90   | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/add.F90 b/src/add.F90
index 036db38..0bfcc1e 100644
--- a/src/add.F90
+++ b/src/add.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() + v2, [v1])
+       call s%set_chain(chain_add_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_add_vd)
   end function add_vd
 
   impure elemental function add_dv(v1, v2) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(v1 + v2%val(), [v2])
+       call s%set_chain(chain_add_vd)
     else
        s = v2
     end if
-    call s%set_chain(chain_add_vd)
   end function add_dv
 
   impure elemental function pos(v) result(s)
diff --git a/src/div.F90 b/src/div.F90
index 8085ea0..2b2e180 100644
--- a/src/div.F90
+++ b/src/div.F90
@@ -47,10 +47,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() / d, [v], [d])
+       call s%set_chain(chain_div_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_div_vd)
   end function div_vd
 
   subroutine chain_div_dv(this)
diff --git a/src/hypot.F90 b/src/hypot.F90
index 84da526..2a53372 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -32,10 +32,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(hypot(v1%val(), v2), [v1])
+       call s%set_chain(chain_hypot)
     else
        s = abs(v1)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_vd
 
   impure elemental function hypot_dv(v1, v2) result(s)
@@ -44,10 +44,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(hypot(v2%val(), v1), [v2])
+       call s%set_chain(chain_hypot)
     else
        s = v2
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_dv
 
 end module fazang_hypot_v_mod
diff --git a/src/mul.F90 b/src/mul.F90
index 159f36f..5c38b92 100644
--- a/src/mul.F90
+++ b/src/mul.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_vd
 
   impure elemental function mul_dv(d, v) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_dv
 
 end module fazang_mul_mod
diff --git a/src/sub.F90 b/src/sub.F90
index b7e4add..678f00b 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -45,10 +45,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() - v2, [v1])
+       call s%set_chain(chain_sub_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_sub_vd)
   end function sub_vd
 
   subroutine chain_sub_dv(this)
-- 
2.43.0


From 95ba370748693d2fdab5fb0fc62b7b5fcbcbffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 02/29] fix: inv_square value is 1/x^2

---
 src/inv_square.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inv_square.F90 b/src/inv_square.F90
index 98bb5c4..268111b 100644
--- a/src/inv_square.F90
+++ b/src/inv_square.F90
@@ -22,7 +22,7 @@ contains
   impure elemental function inv_square(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    s = var(1.d0 / v%val() * v%val(), [v])
+    s = var(1.d0 / (v%val() * v%val()), [v])
     call s%set_chain(chain_isq)
   end function inv_square
 
-- 
2.43.0


From f43cb645db56ef8ba3ce511e35dfc7763a8d8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 03/29] fix: hypot(0.d0, v) is abs(v)

---
 src/hypot.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypot.F90 b/src/hypot.F90
index 2a53372..e543101 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -46,7 +46,7 @@ contains
        s = var(hypot(v2%val(), v1), [v2])
        call s%set_chain(chain_hypot)
     else
-       s = v2
+       s = abs(v2)
     end if
   end function hypot_dv
 
-- 
2.43.0


From 04620c5d1f398677a58e0a1752f1b01e7a77cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 04/29] fix: end_nested must not clear beyond the last used
 tape slot

---
 src/nested.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 5f50ba8..956ce4f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -32,7 +32,7 @@ contains
   subroutine end_nested()
     integer :: i
     if ( nest_level > 0 ) then
-       do i = callstack % stack % head, nested_tape_head(nest_level), -1
+       do i = callstack % stack % head - 1, nested_tape_head(nest_level), -1
           callstack % stack % storage(i) = 0
        end do
        callstack % stack % head = nested_tape_head(nest_level)
-- 
2.43.0


From b8a6150ebe6927a5569299e95eabec9b4311a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 05/29] fix: nested sweeps outside a nest cover the whole tape

---
 src/nested.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 956ce4f..f1beeb4 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -16,7 +16,7 @@ module fazang_nested_tape_mod
 contains
   subroutine set_zero_nested_adj ()
     integer i
-    do i = callstack % head - 1, nested_vari_head(nest_level), -1
+    do i = callstack % head - 1, curr_nested_vari_head(), -1
        call callstack % stack % set_adj(callstack%varis(i)%i, 0.0d0)
     end do
   end subroutine set_zero_nested_adj
@@ -44,7 +44,7 @@ contains
   end subroutine end_nested
 
   integer(ik) function curr_nested_vari_head()
-    curr_nested_vari_head = 0
+    curr_nested_vari_head = 1 ! whole tape when not nested
     if (nest_level > 0) then
        curr_nested_vari_head = nested_vari_head(nest_level)
     end if
-- 
2.43.0


From 378dd94c60c42c7cfb1dd98afe71673a755fb8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 06/29] fix: a new node must not inherit the chain of the
 nested node it replaces

---
 src/vari.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vari.F90 b/src/vari.F90
index 626f696..8d89a35 100644
--- a/src/vari.F90
+++ b/src/vari.F90
@@ -119,6 +119,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val
@@ -135,6 +136,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, op)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op
@@ -145,6 +147,7 @@ contains
     integer(ik) :: vp
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_dop
@@ -157,6 +160,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d,&
          & op, dop)
+    callstack%varis(callstack%head)%chain => chain_dummy
     vp = callstack%head
     call incr1(callstack%head)
   end function new_vari_val_op_dop
-- 
2.43.0


From 3013342addc183c960a99d5beef89c333bbfa534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:15 +0000
Subject: [PATCH 07/29] fix: gradient and jacobian sweep only their own nested
 tape

---
 src/grad.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grad.F90 b/src/grad.F90
index 8a829b2..6df8ad5 100644
--- a/src/grad.F90
+++ b/src/grad.F90
@@ -38,7 +38,7 @@ contains
     x_var = var(x)
     f_var = f(x_var)
     f_df(1) = f_var%val()
-    call f_var%grad()
+    call f_var%grad_nested()
     f_df(2:(1+size(x))) = x_var%adj()
 
     call end_nested()
@@ -59,7 +59,7 @@ contains
 
     do i = 1, n
        call set_zero_nested_adj()
-       call f_var(i)%grad()
+       call f_var(i)%grad_nested()
        f_df(i, 2:(1 + size(x))) = x_var%adj()
     end do
 
-- 
2.43.0


From 14edb46c6110fb7fa6b08219b32ed31cc1d560c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 08/29] fix: scale the part of A outside B's band in
 SUNMatScaleAdd_Band

---
 lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c b/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
index fb68605..a11dbc6 100644
--- a/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
+++ b/lib/sundials-6.1.1/src/sunmatrix/band/sunmatrix_band.c
@@ -364,8 +364,12 @@ int SUNMatScaleAdd_Band(realtype c, SUNMatrix A, SUNMatrix B)
   for (j=0; j<SM_COLUMNS_B(A); j++) {
     A_colj = SM_COLUMN_B(A,j);
     B_colj = SM_COLUMN_B(B,j);
+    for (i=-SM_UBAND_B(A); i<-SM_UBAND_B(B); i++)
+      A_colj[i] *= c;
     for (i=-SM_UBAND_B(B); i<=SM_LBAND_B(B); i++)
       A_colj[i] = c*A_colj[i] + B_colj[i];
+    for (i=SM_LBAND_B(B)+1; i<=SM_LBAND_B(A); i++)
+      A_colj[i] *= c;
   }
   return SUNMAT_SUCCESS;
 }
-- 
2.43.0


From aafac40a22008ffb274b8c1ee80fc9468a1812fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:42 +0000
Subject: [PATCH 09/29] fix: scale every column (row) in SUNMatScaleAddI_Sparse
 when the matrix is not square

---
 lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c b/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
index 1d1a8aa..b78a722 100644
--- a/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
+++ b/lib/sundials-6.1.1/src/sunmatrix/sparse/sunmatrix_sparse.c
@@ -628,7 +628,7 @@ int SUNMatScaleAddI_Sparse(realtype c, SUNMatrix A)
   if (newvals == 0) {
 
     /* iterate through columns, adding 1.0 to diagonal */
-    for (j=0; j < SUNMIN(M,N); j++)
+    for (j=0; j < N; j++)
       for (i=Ap[j]; i<Ap[j+1]; i++)
         if (Ai[i] == j) {
           Ax[i] = ONE + c*Ax[i];
-- 
2.43.0


From 612e7f665d279825b022f1e7a1315dbc6ed1ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 10/29] fix: truncated classical Gram-Schmidt uses the last p
 vectors

---
 lib/sundials-6.1.1/src/sundials/sundials_iterative.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
index 76a0259..9ec7062 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
@@ -123,9 +123,9 @@ int SUNClassicalGS(N_Vector *v, realtype **h, int k, int p, realtype *new_vk_nor
 
   vk_norm = SUNRsqrt(stemp[k-i0]);
   for (i=k-i0-1; i >= 0; i--) {
-    h[i][k_minus_1] = stemp[i];
+    h[i0+i][k_minus_1] = stemp[i];
     stemp[i+1] = -stemp[i];
-    vtemp[i+1] = v[i];
+    vtemp[i+1] = v[i0+i];
   }
   stemp[0] = ONE;
   vtemp[0] = v[k];
@@ -149,10 +149,10 @@ int SUNClassicalGS(N_Vector *v, realtype **h, int k, int p, realtype *new_vk_nor
     for (i=i0; i < k; i++) {
       h[i][k_minus_1] += stemp[i-i0+1];
       stemp[i-i0+1] = -stemp[i-i0+1];
-      vtemp[i-i0+1] = v[i-i0];
+      vtemp[i-i0+1] = v[i];
     }
 
-    retval = N_VLinearCombination(k+1, stemp, vtemp, v[k]);
+    retval = N_VLinearCombination(k-i0+1, stemp, vtemp, v[k]);
     if (retval != 0) return(-1);
 
     *new_vk_norm = SUNRsqrt(N_VDotProd(v[k],v[k]));
-- 
2.43.0


From 07e451c89dfadc48320ac11ce27c656782a2388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:07 +0000
Subject: [PATCH 11/29] fix: SUNQRfact applies all previous rotations to a
 column of a new factorization

---
 lib/sundials-6.1.1/src/sundials/sundials_iterative.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
index 9ec7062..baf84c4 100644
--- a/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
+++ b/lib/sundials-6.1.1/src/sundials/sundials_iterative.c
@@ -188,9 +188,9 @@ int SUNQRfact(int n, realtype **h, realtype *q, int job)
     code = 0;
     for (k=0; k < n; k++) {
 
-      /* Multiply column k by the previous k-1 Givens rotations */
+      /* Multiply column k by the previous k Givens rotations */
 
-      for (j=0; j < k-1; j++) {
+      for (j=0; j < k; j++) {
         i = 2*j;
         temp1 = h[j][k];
         temp2 = h[j+1][k];
-- 
2.43.0


From bb5428f12965bd4bfc3e3308db1b911e660217d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 12/29] fix: comparisons real S var compare in the written
 order

---
 src/relational.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relational.F90 b/src/relational.F90
index 4a23c58..5908c06 100644
--- a/src/relational.F90
+++ b/src/relational.F90
@@ -24,7 +24,7 @@ contains
 
 #define FUNC_REL_OP_VV(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a, b; logical :: r; r = a%val() S b%val(); end function F
 #define FUNC_REL_OP_VD(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a; real(rk), intent(in) :: b; logical :: r; r = a%val() S b; end function F
-#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = b%val() S a; end function F
+#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = a S b%val(); end function F
 
   FUNC_REL_OP_VV(==, var_eq)
   FUNC_REL_OP_VD(==, vd_eq)
-- 
2.43.0


From 0a50ebccc0545e8a5aa0c423e3b83e188fe9f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:05 +0000
Subject: [PATCH 13/29] fix: negation of var is elemental

---
 src/sub.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.F90 b/src/sub.F90
index 678f00b..96b1ff6 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -66,7 +66,7 @@ contains
     call s%set_chain(chain_sub_dv)
   end function sub_dv
 
-  function neg(v) result(s)
+  impure elemental function neg(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
     s = var(-v%val(), [v])
-- 
2.43.0


From 59e25f6956176ff06b108f57203952cf34605850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:05 +0000
Subject: [PATCH 14/29] fix: module fazang exports abs for var as documented

---
 src/fazang.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fazang.F90 b/src/fazang.F90
index 79b4222..039052f 100644
--- a/src/fazang.F90
+++ b/src/fazang.F90
@@ -38,6 +38,7 @@ module fazang
   use fazang_acosh_mod
   use fazang_atanh_mod
   use fazang_log_gamma_mod
+  use fazang_abs_mod
 
   ! op 2
   use fazang_rel_operator_mod
-- 
2.43.0


From 92ed9ed107a8dfa650a6f389ba86a11e3171fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:05 +0000
Subject: [PATCH 15/29] fix: log_sum_exp of -infinity is -infinity, not NaN

---
 src/log_sum_exp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_sum_exp.F90 b/src/log_sum_exp.F90
index 891ffe7..f3ccc9c 100644
--- a/src/log_sum_exp.F90
+++ b/src/log_sum_exp.F90
@@ -30,7 +30,7 @@ contains
     real(rk), intent(in) :: d(:)
     real(rk) :: s, max_d
     max_d = maxval(d)
-    if ( is_inf(max_d) ) then
+    if ( is_inf(max_d) .or. is_neg_inf(max_d) ) then
        s = max_d
     else
        s = max_d + log(sum(exp(d - max_d)))
-- 
2.43.0


From 7285e0f74400e104a5fb5f8fe9c6393288f3df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 16/29] fix: no data race on the shared result in N_VMin,
 N_VInvTest and N_VConstrMask of pthreads vectors

---
 .../src/nvector/pthreads/nvector_pthreads.c   | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c b/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
index 7a3d8d5..78fd040 100644
--- a/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
+++ b/lib/sundials-6.1.1/src/nvector/pthreads/nvector_pthreads.c
@@ -1720,7 +1720,7 @@ static void *N_VMin_PT(void *thread_data)
   end   = my_data->end;
 
   /* find local min */
-  local_min = *global_min;
+  local_min = xd[0];
   for (i = start; i < end; i++) {
     if (xd[i] < local_min)
       local_min = xd[i];
@@ -2023,6 +2023,7 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
   pthread_t      *threads;
   Pthreads_Data  *thread_data;
   pthread_attr_t attr;
+  pthread_mutex_t global_mutex;
 
   realtype val = ZERO;
 
@@ -2036,6 +2037,9 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
   pthread_attr_init(&attr);
   pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
 
+  /* lock for reduction */
+  pthread_mutex_init(&global_mutex, NULL);
+
   for (i=0; i<nthreads; i++) {
     /* initialize thread data */
     N_VInitThreadData(&thread_data[i]);
@@ -2046,7 +2050,8 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
     /* pack thread data */
     thread_data[i].v1 = NV_DATA_PT(x);
     thread_data[i].v2 = NV_DATA_PT(z);
-    thread_data[i].global_val = &val;
+    thread_data[i].global_val   = &val;
+    thread_data[i].global_mutex = &global_mutex;
 
     /* create threads and call pthread companion function */
     pthread_create(&threads[i], &attr, N_VInvTest_PT, (void *) &thread_data[i]);
@@ -2059,6 +2064,7 @@ booleantype N_VInvTest_Pthreads(N_Vector x, N_Vector z)
 
   /* clean up and return */
   pthread_attr_destroy(&attr);
+  pthread_mutex_destroy(&global_mutex);
   free(threads);
   free(thread_data);
 
@@ -2079,6 +2085,7 @@ static void *N_VInvTest_PT(void *thread_data)
   realtype *xd, *zd;
   realtype local_val, *global_val;
   Pthreads_Data *my_data;
+  pthread_mutex_t *global_mutex;
 
   /* extract thread data */
   my_data = (Pthreads_Data *) thread_data;
@@ -2086,7 +2093,8 @@ static void *N_VInvTest_PT(void *thread_data)
   xd = my_data->v1;
   zd = my_data->v2;
 
-  global_val = my_data->global_val;
+  global_val   = my_data->global_val;
+  global_mutex = my_data->global_mutex;
 
   start = my_data->start;
   end   = my_data->end;
@@ -2102,7 +2110,9 @@ static void *N_VInvTest_PT(void *thread_data)
 
   /* update global val */
   if (local_val > ZERO) {
+    pthread_mutex_lock(global_mutex);
     *global_val = local_val;
+    pthread_mutex_unlock(global_mutex);
   }
 
   /* exit */
@@ -2121,6 +2131,7 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
   pthread_t      *threads;
   Pthreads_Data  *thread_data;
   pthread_attr_t attr;
+  pthread_mutex_t global_mutex;
 
   realtype val = ZERO;
 
@@ -2134,6 +2145,9 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
   pthread_attr_init(&attr);
   pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_JOINABLE);
 
+  /* lock for reduction */
+  pthread_mutex_init(&global_mutex, NULL);
+
   for (i=0; i<nthreads; i++) {
     /* initialize thread data */
     N_VInitThreadData(&thread_data[i]);
@@ -2145,7 +2159,8 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
     thread_data[i].v1 = NV_DATA_PT(c);
     thread_data[i].v2 = NV_DATA_PT(x);
     thread_data[i].v3 = NV_DATA_PT(m);
-    thread_data[i].global_val = &val;
+    thread_data[i].global_val   = &val;
+    thread_data[i].global_mutex = &global_mutex;
 
     /* create threads and call pthread companion function */
     pthread_create(&threads[i], &attr, N_VConstrMask_PT, (void *) &thread_data[i]);
@@ -2158,6 +2173,7 @@ booleantype N_VConstrMask_Pthreads(N_Vector c, N_Vector x, N_Vector m)
 
   /* clean up and return */
   pthread_attr_destroy(&attr);
+  pthread_mutex_destroy(&global_mutex);
   free(threads);
   free(thread_data);
 
@@ -2178,6 +2194,7 @@ static void *N_VConstrMask_PT(void *thread_data)
   realtype *cd, *xd, *md;
   realtype local_val, *global_val;
   Pthreads_Data *my_data;
+  pthread_mutex_t *global_mutex;
 
   /* extract thread data */
   my_data = (Pthreads_Data *) thread_data;
@@ -2186,7 +2203,8 @@ static void *N_VConstrMask_PT(void *thread_data)
   xd = my_data->v2;
   md = my_data->v3;
 
-  global_val = my_data->global_val;
+  global_val   = my_data->global_val;
+  global_mutex = my_data->global_mutex;
 
   start = my_data->start;
   end   = my_data->end;
@@ -2209,7 +2227,9 @@ static void *N_VConstrMask_PT(void *thread_data)
 
   /* update global val */
   if (local_val > ZERO) {
+    pthread_mutex_lock(global_mutex);
     *global_val = local_val;
+    pthread_mutex_unlock(global_mutex);
   }
 
   /* exit */
-- 
2.43.0


From 02cca8d80ba5a6c63cdc7badadcd42f1f0ef400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:27 +0000
Subject: [PATCH 17/29] fix: integrate the Adams order-decrease polynomial
 without overwriting its coefficients

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index d4c64e2..db6d040 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5760,7 +5760,8 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
       cv_mem->cv_l[i] = cv_mem->cv_l[i]*xi + cv_mem->cv_l[i-1];
   }
 
-  for (j=1; j <= cv_mem->cv_q-2; j++)
+  /* integrate in place, from the highest power down */
+  for (j=cv_mem->cv_q-2; j >= 1; j--)
     cv_mem->cv_l[j+1] = cv_mem->cv_q * (cv_mem->cv_l[j] / (j+1));
 
   if (cv_mem->cv_q > 2) {
-- 
2.43.0


From 02fa4ce5e63b92cdd365c745691c9a9e6777eb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 18/29] fix: restore the history when f fails at the solution
 of a staggered sensitivity step

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index db6d040..5d82e53 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5534,10 +5534,13 @@ static int cvStep(CVodeMem cv_mem)
       retval = cv_mem->cv_f(cv_mem->cv_tn, cv_mem->cv_y,
                             cv_mem->cv_ftemp, cv_mem->cv_user_data);
       cv_mem->cv_nfe++;
-      if (retval < 0) return(CV_RHSFUNC_FAIL);
-      if (retval > 0) {
-        nflag = PREV_CONV_FAIL;
-        continue;
+      if (retval != 0) {
+        /* restore zn and tn before the step is attempted again or given up */
+        nflag = (retval < 0) ? CV_RHSFUNC_FAIL : RHSFUNC_RECVR;
+        kflag = cvHandleNFlag(cv_mem, &nflag, saved_t, &ncfS,
+                              &(cv_mem->cv_ncfn));
+        if (kflag == PREDICT_AGAIN) continue;
+        return(kflag);
       }
 
       if (do_sensi_stg) {
-- 
2.43.0


From 93fec529fe96fc089ebc92a8abe5c0f7fd73f4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:30 +0000
Subject: [PATCH 19/29] fix: adjust the quadrature sensitivities when the Adams
 order changes

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 5d82e53..2ac9115 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5741,6 +5741,9 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
     if (cv_mem->cv_sensi)
       (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
                                  cv_mem->cv_znS[cv_mem->cv_L]);
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VConstVectorArray(cv_mem->cv_Ns, ZERO,
+                                 cv_mem->cv_znQS[cv_mem->cv_L]);
     return;
   }
 
@@ -5787,6 +5790,13 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
                                          cv_mem->cv_znS[cv_mem->cv_q],
                                          cv_mem->cv_znS+2,
                                          cv_mem->cv_znS+2);
+
+    if (cv_mem->cv_quadr_sensi)
+      (void) N_VScaleAddMultiVectorArray(cv_mem->cv_Ns, cv_mem->cv_q-2,
+                                         cv_mem->cv_cvals,
+                                         cv_mem->cv_znQS[cv_mem->cv_q],
+                                         cv_mem->cv_znQS+2,
+                                         cv_mem->cv_znQS+2);
   }
 
 }
-- 
2.43.0


From ad97b0e38d73b063ad3adae830218332305a315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:11 +0000
Subject: [PATCH 20/29] fix: keep the corrections needed to raise the BDF order
 whether or not they are error controlled

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 2ac9115..e880d45 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -7284,14 +7284,15 @@ static void cvChooseEta(CVodeMem cv_mem)
        *
        * This happens at the last step of order q before an increase
        * to order q+1, so it represents Delta_n in the ELTE at q+1
+       * and is needed by cvIncreaseBDF for every history array
        */
 
       N_VScale(ONE, cv_mem->cv_acor, cv_mem->cv_zn[cv_mem->cv_qmax]);
 
-      if (cv_mem->cv_quadr && cv_mem->cv_errconQ)
+      if (cv_mem->cv_quadr)
         N_VScale(ONE, cv_mem->cv_acorQ, cv_mem->cv_znQ[cv_mem->cv_qmax]);
 
-      if (cv_mem->cv_sensi && cv_mem->cv_errconS) {
+      if (cv_mem->cv_sensi) {
         for (is=0; is<cv_mem->cv_Ns; is++)
           cv_mem->cv_cvals[is] = ONE;
 
@@ -7299,7 +7300,7 @@ static void cvChooseEta(CVodeMem cv_mem)
                                    cv_mem->cv_acorS, cv_mem->cv_znS[cv_mem->cv_qmax]);
       }
 
-      if (cv_mem->cv_quadr_sensi && cv_mem->cv_errconQS) {
+      if (cv_mem->cv_quadr_sensi) {
         for (is=0; is<cv_mem->cv_Ns; is++)
           cv_mem->cv_cvals[is] = ONE;
 
-- 
2.43.0


From 8ed03f12b8d5f745c0c323d30dc2836a8e12f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 21/29] fix: keep the step above the minimum after repeated
 error test failures

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index e880d45..e357289 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6907,9 +6907,9 @@ static int cvDoErrorTest(CVodeMem cv_mem, int *nflagPtr, realtype saved_t,
   /* Set h ratio eta from dsm, rescale, and return for retry of step */
   if (*nefPtr <= MXNEF1) {
     cv_mem->cv_eta = ONE / (SUNRpowerR(BIAS2*dsm,ONE/cv_mem->cv_L) + ADDON);
+    if (*nefPtr >= SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);
     cv_mem->cv_eta = SUNMAX(ETAMIN, SUNMAX(cv_mem->cv_eta,
                                            cv_mem->cv_hmin / SUNRabs(cv_mem->cv_h)));
-    if (*nefPtr >= SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);
     cvRescale(cv_mem);
     return(TRY_AGAIN);
   }
-- 
2.43.0


From c18dd6bef3e2e1056c02c88952a2188786ec584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:35 +0000
Subject: [PATCH 22/29] fix: watch every root function again after CVodeReInit

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index e357289..839f3f9 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -7856,6 +7856,7 @@ static int cvRcheck1(CVodeMem cv_mem)
 
   zroot = SUNFALSE;
   for (i = 0; i < cv_mem->cv_nrtfn; i++) {
+    cv_mem->cv_gactive[i] = SUNTRUE;
     if (SUNRabs(cv_mem->cv_glo[i]) == ZERO) {
       zroot = SUNTRUE;
       cv_mem->cv_gactive[i] = SUNFALSE;
-- 
2.43.0


From e464c8f84b04d3dd549188c5aff826a4bbb5cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:18 +0000
Subject: [PATCH 23/29] fix: return the failure of the system function from the
 fixed-point solver

---
 .../src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
index fcfac69..abb5c95 100644
--- a/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
+++ b/lib/sundials-6.1.1/src/sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint.c
@@ -233,7 +233,10 @@ int SUNNonlinSolSolve_FixedPoint(SUNNonlinearSolver NLS, N_Vector y0,
 
     /* compute fixed-point iteration function, store in gy */
     retval = FP_CONTENT(NLS)->Sys(ycor, gy, mem);
-    if (retval != SUN_NLS_SUCCESS) break;
+    if (retval != SUN_NLS_SUCCESS) {
+      FP_CONTENT(NLS)->nconvfails++;
+      return(retval);
+    }
 
     /* perform fixed point update, based on choice of acceleration or not */
     if (FP_CONTENT(NLS)->m == 0) {    /* basic fixed-point solver */
-- 
2.43.0


From 2147872c545940cacc3886c741f595bb390680b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:18 +0000
Subject: [PATCH 24/29] fix: no root functions are left after CVodeRootInit
 refuses a missing function

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 839f3f9..bff6c99 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -2678,6 +2678,9 @@ int CVodeRootInit(void *cvode_mem, int nrtfn, CVRootFn g)
         cv_mem->cv_lrw -= 3*nrt;
         cv_mem->cv_liw -= 3*nrt;
 
+        cv_mem->cv_nrtfn = 0;
+        cv_mem->cv_gfun  = NULL;
+
         cvProcessError(cv_mem, CV_ILL_INPUT, "CVODES", "CVodeRootInit",
                        MSGCV_NULL_G);
         return(CV_ILL_INPUT);
@@ -2693,6 +2696,8 @@ int CVodeRootInit(void *cvode_mem, int nrtfn, CVRootFn g)
   /* Set variable values in CVode memory block */
   cv_mem->cv_nrtfn = nrt;
   if (g == NULL) {
+    cv_mem->cv_nrtfn = 0;
+    cv_mem->cv_gfun  = NULL;
     cvProcessError(cv_mem, CV_ILL_INPUT, "CVODES", "CVodeRootInit",
                    MSGCV_NULL_G);
     return(CV_ILL_INPUT);
-- 
2.43.0


From 244ed01aea48ed092dc4f9fa63af9baa72355e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:15 +0000
Subject: [PATCH 25/29] fix: attach the setup of the linear solver again when a
 preconditioner is added later

---
 lib/sundials-6.1.1/src/cvodes/cvodes_ls.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
index ce285dd..7d11d2c 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_ls.c
@@ -1519,9 +1519,12 @@ int cvLsInitialize(CVodeMem cv_mem)
   }
 
   /* if A is NULL and psetup is not present, then cvLsSetup does
-     not need to be called, so set the lsetup function to NULL */
+     not need to be called, so set the lsetup function to NULL
+     (psetup may have been attached since an earlier initialization) */
   if ( (cvls_mem->A == NULL) && (cvls_mem->pset == NULL) )
     cv_mem->cv_lsetup = NULL;
+  else
+    cv_mem->cv_lsetup = cvLsSetup;
 
   /* When using a matrix-embedded linear solver, disable lsetup call and solution scaling */
   if (SUNLinSolGetType(cvls_mem->LS) == SUNLINEARSOLVER_MATRIX_EMBEDDED) {
-- 
2.43.0


From 89f529d9bf5620e1bdab258d4300881dc4945fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:15 +0000
Subject: [PATCH 26/29] fix: the preconditioner getters refuse a solver without
 their preconditioner

---
 lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c | 4 ++--
 lib/sundials-6.1.1/src/cvodes/cvodes_bbdpre.c  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c b/lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c
index d60a357..a09a83b 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_bandpre.c
@@ -224,7 +224,7 @@ int CVBandPrecGetWorkSpace(void *cvode_mem, long int *lenrwBP,
   }
   cvls_mem = (CVLsMem) cv_mem->cv_lmem;
 
-  if (cvls_mem->P_data == NULL) {
+  if (cvls_mem->pfree != cvBandPrecFree) {
     cvProcessError(cv_mem, CVLS_PMEM_NULL, "CVSBANDPRE",
                    "CVBandPrecGetWorkSpace", MSGBP_PMEM_NULL);
     return(CVLS_PMEM_NULL);
@@ -282,7 +282,7 @@ int CVBandPrecGetNumRhsEvals(void *cvode_mem, long int *nfevalsBP)
   }
   cvls_mem = (CVLsMem) cv_mem->cv_lmem;
 
-  if (cvls_mem->P_data == NULL) {
+  if (cvls_mem->pfree != cvBandPrecFree) {
     cvProcessError(cv_mem, CVLS_PMEM_NULL, "CVSBANDPRE",
                    "CVBandPrecGetNumRhsEvals", MSGBP_PMEM_NULL);
     return(CVLS_PMEM_NULL);
diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes_bbdpre.c b/lib/sundials-6.1.1/src/cvodes/cvodes_bbdpre.c
index b2af393..3556d92 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes_bbdpre.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes_bbdpre.c
@@ -318,7 +318,7 @@ int CVBBDPrecReInit(void *cvode_mem, sunindextype mudq,
   cvls_mem = (CVLsMem) cv_mem->cv_lmem;
 
   /* Test if the preconditioner data is non-NULL */
-  if (cvls_mem->P_data == NULL) {
+  if (cvls_mem->pfree != cvBBDPrecFree) {
     cvProcessError(cv_mem, CVLS_PMEM_NULL, "CVSBBDPRE",
                    "CVBBDPrecReInit", MSGBBD_PMEM_NULL);
     return(CVLS_PMEM_NULL);
@@ -363,7 +363,7 @@ int CVBBDPrecGetWorkSpace(void *cvode_mem,
   }
   cvls_mem = (CVLsMem) cv_mem->cv_lmem;
 
-  if (cvls_mem->P_data == NULL) {
+  if (cvls_mem->pfree != cvBBDPrecFree) {
     cvProcessError(cv_mem, CVLS_PMEM_NULL, "CVSBBDPRE",
                    "CVBBDPrecGetWorkSpace", MSGBBD_PMEM_NULL);
     return(CVLS_PMEM_NULL);
@@ -398,7 +398,7 @@ int CVBBDPrecGetNumGfnEvals(void *cvode_mem,
   }
   cvls_mem = (CVLsMem) cv_mem->cv_lmem;
 
-  if (cvls_mem->P_data == NULL) {
+  if (cvls_mem->pfree != cvBBDPrecFree) {
     cvProcessError(cv_mem, CVLS_PMEM_NULL, "CVSBBDPRE",
                    "CVBBDPrecGetNumGfnEvals", MSGBBD_PMEM_NULL);
     return(CVLS_PMEM_NULL);
-- 
2.43.0


From 29d04afefc693644e7feef47a832ebb65ca4f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:15 +0000
Subject: [PATCH 27/29] fix: SPTFQMR reports a recoverable preconditioner
 failure as recoverable

---
 lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c b/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
index a9691e3..c7f9390 100644
--- a/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
+++ b/lib/sundials-6.1.1/src/sunlinsol/sptfqmr/sunlinsol_sptfqmr.c
@@ -643,7 +643,7 @@ int SUNLinSolSolve_SPTFQMR(SUNLinearSolver S, SUNMatrix A, N_Vector x,
           if (ier != 0) {
             *zeroguess  = SUNFALSE;
             LASTFLAG(S) = (ier < 0) ?
-              SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_UNREC;
+              SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC;
             return(LASTFLAG(S));
           }
           N_VScale(ONE, vtemp2, vtemp1);
@@ -774,7 +774,7 @@ int SUNLinSolSolve_SPTFQMR(SUNLinearSolver S, SUNMatrix A, N_Vector x,
       if (ier != 0) {
         *zeroguess  = SUNFALSE;
         LASTFLAG(S) = (ier < 0) ?
-          SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_UNREC;
+          SUNLS_PSOLVE_FAIL_UNREC : SUNLS_PSOLVE_FAIL_REC;
         return(LASTFLAG(S));
       }
       N_VScale(ONE, vtemp1, x);
-- 
2.43.0


From a344a8f0f29138c505e5f9df1fe339a0b3c5fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 28/29] fix: the right-hand side of the user sees vectors of
 their length

---
 src/cvodes_model.F90 | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 87f1ffe..e1e2f58 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -86,6 +86,15 @@ contains
     rhs % pval => p
   end function new_cvs_rhs_pvar
 
+  ! data of an N_Vector. FN_VGetArrayPointer returns a pointer to an
+  ! array of size 1, whatever the length of the vector.
+  function nvector_data(v) result(d)
+    type(N_Vector), target, intent(inout) :: v
+    real(c_double), pointer :: d(:), p(:)
+    p => FN_VGetArrayPointer(v)
+    call c_f_pointer(c_loc(p(1)), d, [FN_VGetLength(v)])
+  end function nvector_data
+
   ! ----------------------------------------------------------------
   ! RhsFn provides the right hand side function for the
   ! ODE: dy/dt = f(t,y)
@@ -116,8 +125,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(sunvec_y)
-    fvec => FN_VGetArrayPointer(sunvec_f)
+    yvec => nvector_data(sunvec_y)
+    fvec => nvector_data(sunvec_f)
 
     ! fill RHS vector
     call ode % f(tn, yvec, fvec)
@@ -197,15 +206,15 @@ contains
        do j = 1, ode % ns
           yiS => FN_VGetVecAtIndexVectorArray(yS, j - 1)
           yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, j - 1)
-          yiSvec => FN_VGetArrayPointer(yiS)
-          yiSdotvec => FN_VGetArrayPointer(yiSdot)
+          yiSvec => nvector_data(yiS)
+          yiSdotvec => nvector_data(yiSdot)
           yiSdotvec(i) = dot_product(yvar%adj(), yiSvec)
        end do
        
        if ( par_is_var ) then
           do j = 1, m
              yiSdot => FN_VGetVecAtIndexVectorArray(ySdot, ode % ns - m + j - 1)
-             yiSdotvec => FN_VGetArrayPointer(yiSdot)
+             yiSdotvec => nvector_data(yiSdot)
              yiSdotvec(i) = yiSdotvec(i) + pvar(j) % adj();
           enddo
        end if
@@ -243,8 +252,8 @@ contains
     call c_f_pointer(user_data, ode)
 
     ! get data arrays from SUNDIALS vectors
-    yvec => FN_VGetArrayPointer(y)
-    fvec => FN_VGetArrayPointer(f)
+    yvec => nvector_data(y)
+    fvec => nvector_data(f)
     n = int(FN_VGetLength(y), kind=int32)
     call set_sens_rhs(n, t, yvec, fvec, yS, ySdot, ode)
     ierr = 0
-- 
2.43.0


From d4c361c380ac583c0d09e164fb71024008f405fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 29/29] fix: as many parameters as the ODE has in the
 sensitivity right-hand side

---
 src/cvodes_model.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index e1e2f58..dbba347 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -184,7 +184,7 @@ contains
     type(N_Vector), pointer :: yiSdot
     real(c_double), pointer :: yiSdotvec(:)
     logical :: par_is_var
-    type(var) :: pvar(3)
+    type(var), allocatable :: pvar(:)
     integer m               ! # of var params
 
     m = merge(ode % ns - n, ode % ns, ode % ys)
-- 
2.43.0

