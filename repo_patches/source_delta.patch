From 0475477e812bb11e5b30b5cd394e0230fad7ac77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 01/48] fix: integrate_const with dense output steppers steps
 up to the last observation time

If less than two observation intervals fit into [t0,t1], or if the last step
was shortened by the step size control, the final observation was evaluated
without (or beyond) any performed step.
---
 .../odeint/integrate/detail/integrate_const.hpp        | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 7a86b32..19b8ffd 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -154,6 +154,16 @@ size_t integrate_const(
     // might happen due to finite precision problems when computing the the time
     if( less_eq_with_sign( time , end_time , dt ) )
     {
+        // make sure the stepper has really reached the last observation time
+        while( less_with_sign( st.current_time() , time , dt ) )
+        {
+            if( less_with_sign( end_time ,
+                                static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                st.current_time_step() ) )
+                st.initialize( st.current_state() , st.current_time() , static_cast<Time>(end_time - st.current_time()) );
+            st.do_step( system );
+            ++real_step;
+        }
         st.calc_state( time , start_state );
         obs( start_state , time );
     }
-- 
2.43.0


From ec9eb30be3726fe064c194e58ac88b4ac04d4529 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:18:05 +0000
Subject: [PATCH 02/48] fix: integrate_n_steps with dense output steppers ends
 at t0+n*dt for negative dt and stores the final state

The loop which runs up to the end time compared the times without regarding
the direction of the integration, and start_state was left at x(t0+(n-1)*dt).
---
 .../numeric/odeint/integrate/detail/integrate_n_steps.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
index 2ef490d..63da576 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_n_steps.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp>
 #include <boost/numeric/odeint/util/unit_helper.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -137,7 +138,7 @@ Time integrate_n_steps(
     }
 
     // make sure we really end exactly where we should end
-    while( st.current_time() < end_time )
+    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
     {
         if( less_with_sign( end_time ,
                             static_cast<Time>(st.current_time()+st.current_time_step()) ,
@@ -146,8 +147,10 @@ Time integrate_n_steps(
         st.do_step( system );
     }
 
+    // overwrite start_state with the final point
+    boost::numeric::odeint::copy( st.current_state() , start_state );
     // observation at final point
-    obs( st.current_state() , end_time );
+    obs( start_state , end_time );
 
     return time;
 }
-- 
2.43.0


From 0723f36feb03864adedfb1740bd7d358b81125e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 03/48] fix: bulirsch_stoer_dense_out compares step sizes
 regarding the direction of the integration

After a rejected step with negative dt the reduced step size was not taken
over such that the same step was tried until step_adjustment_error is thrown.
---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 22eb373..7e6ecdd 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -291,7 +291,7 @@ public:
             }
         }
         //set next stepsize
-        if( !m_last_step_rejected || (new_h < dt) )
+        if( !m_last_step_rejected || detail::less_with_sign( new_h , dt , dt ) )
         {
             // limit step size
             if( m_max_dt != static_cast<time_type>(0) )
-- 
2.43.0


From 945da2040bbd8f485ba2d4e9fe31958af1168eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:32 +0000
Subject: [PATCH 04/48] fix: bulirsch_stoer steppers select the order
 independent of the direction of the integration

The work per unit step was negative for negative dt which inverted all
comparisons of the order selection.
---
 include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp         | 2 ++
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
index 02c3749..07fc547 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer.hpp
@@ -235,6 +235,8 @@ public:
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
                 work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                if( get_unit_value( dt ) < 0 ) // work per unit step is positive also for negative dt
+                    work[k] = -work[k];
 
                 if( (k == m_current_k_opt-1) || m_first )
                 { // convergence before k_opt ?
diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 7e6ecdd..269de06 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -199,6 +199,8 @@ public:
                 const value_type error = m_error_checker.error( m_algebra , in , dxdt , m_err.m_v , dt );
                 h_opt[k] = calc_h_opt( dt , error , k );
                 work[k] = static_cast<value_type>( m_cost[k] ) / h_opt[k];
+                if( get_unit_value( dt ) < 0 ) // work per unit step is positive also for negative dt
+                    work[k] = -work[k];
 
                 m_k_final = k;
 
-- 
2.43.0


From ba630dfa84ec3f1c6701dbd0843bc8e2988732d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:56 +0000
Subject: [PATCH 05/48] fix: bulirsch_stoer_dense_out::reset also resets the
 estimate of the optimal order

With a large order left over from previous steps the first step after
initialize() could converge at the highest order and then read behind the end
of the cost table.
---
 .../boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
index 269de06..1193fdf 100644
--- a/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
+++ b/include/boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp
@@ -383,6 +383,8 @@ public:
     {
         m_first = true;
         m_last_step_rejected = false;
+        // crude estimate of optimal order
+        m_current_k_opt = 4;
     }
 
     template< class StateIn >
-- 
2.43.0


From d0bf37b82404e2e2f6ad0acfa7b53e78799002d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 06/48] fix: pid_step_adjuster limits the absolute value of the
 step size

For negative dt the limit either was never applied (positive limit) or every
step was set to the limit regardless of the error (negative limit).
---
 .../boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 7c0f258..1451f8e 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -157,9 +157,9 @@ public:
         value_type kappa = 1.0;
         ratio = 1.0 + kappa*atan((ratio - 1) / kappa);
 
-        if(ratio*dt >= m_dtmax)
+        if(abs(ratio*dt) >= abs(m_dtmax))
         {
-            ratio = m_dtmax / dt;
+            ratio = abs(m_dtmax / dt);
         }
 
         if(ratio >= threshold())
-- 
2.43.0


From d59958fe8a2330f9b3c65ed850575d003de2a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:24 +0000
Subject: [PATCH 07/48] fix: adjust_size of dense output and controlled FSAL
 steppers resizes the underlying stepper

dense_output_runge_kutta::adjust_size called a member which does not exist and
could not be compiled, the FSAL version of controlled_runge_kutta left the
temporaries of its error stepper at the old size.
---
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp   | 1 +
 .../boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index be00827..164b9d2 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -841,6 +841,7 @@ public:
         resize_m_dxdt_impl( x );
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
+        m_stepper.adjust_size( x );
     }
 
 
diff --git a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
index 83982dc..9254fd4 100644
--- a/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp
@@ -169,7 +169,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_impl( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     /**
@@ -379,7 +379,7 @@ public:
     void adjust_size( const StateType &x )
     {
         resize( x );
-        m_stepper.stepper().resize( x );
+        m_stepper.adjust_size( x );
     }
 
     const state_type& current_state( void ) const
-- 
2.43.0


From 73f40fe62d8c7fe0b3a1eb3fefb489b0ed2fb17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 08/48] fix: adjust_size of adams_bashforth and
 extrapolation_stepper adjusts all temporaries

adams_bashforth left its initializing stepper at the old size and kept using
the stored steps, extrapolation_stepper hid the adjust_size of its base class
and did not adjust the temporary used for in-place steps.
---
 include/boost/numeric/odeint/stepper/adams_bashforth.hpp    | 6 +++++-
 .../boost/numeric/odeint/stepper/extrapolation_stepper.hpp  | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
index 5ff1e83..d3810fe 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth.hpp
@@ -176,7 +176,11 @@ public :
     template< class StateType >
     void adjust_size( const StateType &x )
     {
-        resize_impl( x );
+        if( resize_impl( x ) )
+        {
+            m_steps_initialized = 0; // the stored steps are not valid anymore
+        }
+        m_initializing_stepper.adjust_size( x );
     }
 
     const step_storage_type& step_storage( void ) const
diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index 3b688e9..a1d63ad 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -217,7 +217,9 @@ class extrapolation_stepper : public explicit_error_stepper_base
 
     template < class StateIn > void adjust_size( const StateIn &x )
     {
+        stepper_base_type::adjust_size( x );
         resize_impl( x );
+        resize_m_xout( x );
         m_midpoint.adjust_size( x );
     }
 
-- 
2.43.0


From 57259992f0c32dad7444722415f0dfd330a13d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:27 +0000
Subject: [PATCH 09/48] fix: extrapolation_stepper supports in-place steps

If the step was performed in-place the first midpoint result overwrote the
initial state of all the following midpoint steps, do_step(sys,x,t,dt) and hence
all integrate functions gave wrong results.
---
 .../odeint/stepper/extrapolation_stepper.hpp    | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
index a1d63ad..97a6482 100644
--- a/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
+++ b/include/boost/numeric/odeint/stepper/extrapolation_stepper.hpp
@@ -175,28 +175,27 @@ class extrapolation_stepper : public explicit_error_stepper_base
         m_resizer.adjust_size(
             in, detail::bind( &stepper_type::template resize_impl< StateIn >,
                               detail::ref( *this ), detail::_1 ) );
+        // in and out might be the same instance and in is used several times
+        m_xout_resizer.adjust_size(
+            in, detail::bind( &stepper_type::template resize_m_xout< StateIn >,
+                              detail::ref( *this ), detail::_1 ) );
         size_t k = 0;
         m_midpoint.set_steps( m_interval_sequence[k] );
-        m_midpoint.do_step( system, in, dxdt, t, out, dt );
+        m_midpoint.do_step( system, in, dxdt, t, m_xout.m_v, dt );
         for ( k = 1; k <= m_k_max; ++k )
         {
             m_midpoint.set_steps( m_interval_sequence[k] );
             m_midpoint.do_step( system, in, dxdt, t, m_table[k - 1].m_v, dt );
-            extrapolate( k, m_table, m_coeff, out );
+            extrapolate( k, m_table, m_coeff, m_xout.m_v );
         }
+        boost::numeric::odeint::copy( m_xout.m_v, out );
     }
 
     template < class System, class StateInOut, class DerivIn >
     void do_step_impl_io( System system, StateInOut &inout, const DerivIn &dxdt,
                           time_type t, time_type dt )
     {
-        // special care for inout
-        m_xout_resizer.adjust_size(
-            inout,
-            detail::bind( &stepper_type::template resize_m_xout< StateInOut >,
-                          detail::ref( *this ), detail::_1 ) );
-        do_step_impl( system, inout, dxdt, t, m_xout.m_v, dt );
-        boost::numeric::odeint::copy( m_xout.m_v, inout );
+        do_step_impl( system, inout, dxdt, t, inout, dt );
     }
 
     template < class System, class StateInOut, class DerivIn >
-- 
2.43.0


From 2dd9859c1dc9bd9beddc616a64506207bf750297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:52 +0000
Subject: [PATCH 10/48] fix: copies of adams_moulton and
 adams_bashforth_moulton use their own algebra

The implicit copy constructor copied the reference to the algebra of the
original stepper, which dangles as soon as the original is destroyed.
---
 .../numeric/odeint/stepper/adams_bashforth_moulton.hpp    | 8 ++++++++
 include/boost/numeric/odeint/stepper/adams_moulton.hpp    | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index f3edce1..32f6e33 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -94,6 +94,14 @@ public :
     , m_x() , m_resizer()    
     { }
 
+    adams_bashforth_moulton( const adams_bashforth_moulton &stepper )
+    : m_adams_bashforth( stepper.m_adams_bashforth ) , m_adams_moulton( m_adams_bashforth.algebra() )
+    , m_x( stepper.m_x ) , m_resizer( stepper.m_resizer )
+    {
+        // m_adams_moulton must not refer to the algebra of the copied instance
+        m_adams_moulton = stepper.m_adams_moulton;
+    }
+
     order_type order( void ) const { return order_value; }
 
     template< class System , class StateInOut >
diff --git a/include/boost/numeric/odeint/stepper/adams_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
index 05b4277..5effef9 100644
--- a/include/boost/numeric/odeint/stepper/adams_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_moulton.hpp
@@ -97,6 +97,12 @@ public :
       m_algebra_instance() , m_algebra( algebra )
     { }
 
+    adams_moulton( const adams_moulton &stepper )
+    : m_coefficients() , m_dxdt( stepper.m_dxdt ) , m_resizer( stepper.m_resizer ) ,
+      m_algebra_instance( stepper.m_algebra_instance ) ,
+      m_algebra( &stepper.m_algebra == &stepper.m_algebra_instance ? m_algebra_instance : stepper.m_algebra )
+    { }
+
     adams_moulton& operator=( const adams_moulton &stepper )
     {
         m_dxdt = stepper.m_dxdt;
-- 
2.43.0


From 2a732240eeb1c4e892fd6b22367936f0cc168e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:29 +0000
Subject: [PATCH 11/48] fix: adams_bashforth_moulton restarts its
 initialization if the system size changes

The corrector was applied with the resized, but meaningless stored steps.
---
 .../odeint/stepper/adams_bashforth_moulton.hpp        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
index 32f6e33..5d694b5 100644
--- a/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp
@@ -30,6 +30,7 @@
 
 #include <boost/numeric/odeint/util/state_wrapper.hpp>
 #include <boost/numeric/odeint/util/resizer.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
 #include <boost/numeric/odeint/stepper/adams_moulton.hpp>
@@ -174,7 +175,10 @@ private:
         {
             m_resizer.adjust_size( x , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );
             m_adams_bashforth.do_step( system , x , t , m_x.m_v , dt );
-            m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
+            if( m_adams_bashforth.is_initialized() )
+                m_adams_moulton.do_step( system , x , m_x.m_v , t+dt , x , dt , m_adams_bashforth.step_storage() );
+            else // system was resized, hence the initialization starts again
+                boost::numeric::odeint::copy( m_x.m_v , x );
         }
         else
         {
@@ -189,7 +193,10 @@ private:
         {
             m_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_impl< StateInOut > , detail::ref( *this ) , detail::_1 ) );        
             m_adams_bashforth.do_step( system , in , t , m_x.m_v , dt );
-            m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
+            if( m_adams_bashforth.is_initialized() )
+                m_adams_moulton.do_step( system , in , m_x.m_v , t+dt , out , dt , m_adams_bashforth.step_storage() );
+            else // system was resized, hence the initialization starts again
+                boost::numeric::odeint::copy( m_x.m_v , out );
         }
         else
         {
-- 
2.43.0


From 5cd430a050decebc66859e3872bd39c00f7c0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/48] fix: adaptive and controlled adams_bashforth_moulton
 restart if the system size changes

Stored derivatives and errors of the old size were read beyond their end.
---
 .../adaptive_adams_bashforth_moulton.hpp      |  5 ++++
 .../stepper/detail/pid_step_adjuster.hpp      | 23 +++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
index 0d3d0c1..181b04e 100644
--- a/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp
@@ -166,6 +166,11 @@ public:
     template< class System >
     void do_step_impl(System system, const state_type & in, time_type t, state_type & out, time_type &dt, state_type &xerr)
     {
+        if( adjust_size_by_resizeability( m_coeff.phi[1][0] , in , typename is_resizeable<deriv_type>::type() ) )
+        {
+            reset(); // system resized, the stored steps are not valid anymore
+        }
+
         size_t eO = m_coeff.m_eo;
 
         m_xerr_resizer.adjust_size( in , detail::bind( &stepper_type::template resize_xerr_impl< state_type > , detail::ref( *this ) , detail::_1 ) );
diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index 1451f8e..d40ccbe 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -21,6 +21,10 @@
 #include <boost/numeric/odeint/algebra/algebra_dispatcher.hpp>
 #include <boost/numeric/odeint/algebra/operations_dispatcher.hpp>
 
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
+#include <boost/numeric/odeint/util/is_resizeable.hpp>
+#include <boost/numeric/odeint/util/resizer.hpp>
+
 #include <math.h>
 
 namespace boost {
@@ -122,7 +126,8 @@ public:
     typedef Algebra algebra_type;
     typedef Operations operations_type;
 
-    typedef rotating_buffer<state_type, 3> error_storage_type;
+    typedef state_wrapper<state_type> wrapped_state_type;
+    typedef rotating_buffer<wrapped_state_type, 3> error_storage_type;
     typedef rotating_buffer<time_type, 3> time_storage_type;
     typedef pid_step_adjuster_coefficients<Type> coeff_type;
 
@@ -137,18 +142,28 @@ public:
         m_algebra.for_each3( err , x , dxdt ,
                 typename operations_type::template rel_error< value_type >( m_abs_tol , m_rel_tol , 1.0 , 1.0 * abs(get_unit_value( dt )) ) );
 
-        m_error_storage[0] = err;
+        bool resized( false );
+        for( size_t i=0 ; i<3 ; ++i )
+        {
+            resized |= adjust_size_by_resizeability( m_error_storage[i] , err , typename is_resizeable<state_type>::type() );
+        }
+        if( resized )
+        {
+            m_init = 0; // system resized, the stored errors are not valid anymore
+        }
+
+        m_error_storage[0].m_v = err;
         m_dt_storage[0] = dt;
 
         if(m_init >= 2)
         {
-            m_algebra.for_each4(err, m_error_storage[0], m_error_storage[1], m_error_storage[2],
+            m_algebra.for_each4(err, m_error_storage[0].m_v, m_error_storage[1].m_v, m_error_storage[2].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2],
                     m_coeff[0], m_coeff[1], m_coeff[2], m_coeff[3], m_coeff[4]));
         }
         else
         {
-            m_algebra.for_each2(err, m_error_storage[0],
+            m_algebra.for_each2(err, m_error_storage[0].m_v,
                 pid_op<>(steps, m_dt_storage[0], m_dt_storage[1], m_dt_storage[2], 0.7));
         }
 
-- 
2.43.0


From 03d3e765f5f196ff841e39c02db04b538dff3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:44 +0000
Subject: [PATCH 13/48] fix: state_wrapper<gsl_vector*> can be copied and
 assigned

The copy constructor freed an uninitialized pointer and the implicit assignment
operator shared the vector between both instances which then was freed twice.
---
 .../numeric/odeint/external/gsl/gsl_wrapper.hpp     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index a856f6e..d04308f 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -207,10 +207,21 @@ struct state_wrapper< gsl_vector* >
 
     state_wrapper( const state_wrapper_type &x )
     {
-        resize( m_v , x.m_v );
+        m_v = gsl_vector_alloc( x.m_v->size );
         gsl_vector_memcpy( m_v , x.m_v );
     }
 
+    state_wrapper_type& operator=( const state_wrapper_type &x )
+    {
+        if( this != &x )
+        {
+            if( !same_size( m_v , x.m_v ) )
+                resize( m_v , x.m_v );
+            gsl_vector_memcpy( m_v , x.m_v );
+        }
+        return *this;
+    }
+
 
     ~state_wrapper()
     {
-- 
2.43.0


From 7f2fdddee11968407a6052af5f7e88cc39a19d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:44 +0000
Subject: [PATCH 14/48] fix: integrate_times and times iterators do not
 dereference an empty range of times

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp   | 6 ++++++
 .../numeric/odeint/iterator/impl/times_iterator_impl.hpp  | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index 2e27990..bdef9c1 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -53,6 +53,9 @@ size_t integrate_times(
     observer_type &obs = observer;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     size_t steps = 0;
     Time current_dt = dt;
     while( true )
@@ -86,6 +89,9 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
     typedef typename unit_value_type<Time>::type time_type;
 
+    if( start_time == end_time )
+        return 0;
+
     failed_step_checker fail_checker;  // to throw a runtime_error if step size adjustment fails
     size_t steps = 0;
     while( true )
diff --git a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
index 7a2b48d..df3ef6a 100644
--- a/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
+++ b/include/boost/numeric/odeint/iterator/impl/times_iterator_impl.hpp
@@ -83,7 +83,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -181,7 +181,7 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
               m_t_start( t_start ) , m_t_end( t_end ) , m_state( &s )
         {
             if( t_start == t_end )
@@ -301,8 +301,8 @@ namespace odeint {
          */
         times_iterator_impl( stepper_type stepper , system_type sys , state_type &s ,
                              time_iterator_type t_start , time_iterator_type t_end , time_type dt )
-            : base_type( stepper , sys , *t_start , dt ) ,
-              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( *(t_end-1) ) ,
+            : base_type( stepper , sys , t_start != t_end ? static_cast<time_type>(*t_start) : time_type() , dt ) ,
+              m_t_start( t_start ) , m_t_end( t_end ) , m_final_time( t_start != t_end ? static_cast<time_type>(*(t_end-1)) : time_type() ) ,
               m_state( &s )
         {
             if( t_start != t_end )
-- 
2.43.0


From 8609405b52a574a22dd697b686fb837f2fc4d2a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:59 +0000
Subject: [PATCH 15/48] fix: openmp_state copy writes to the corresponding part

---
 include/boost/numeric/odeint/external/openmp/openmp_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
index 83bbc19..b8d697e 100644
--- a/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
+++ b/include/boost/numeric/odeint/external/openmp/openmp_state.hpp
@@ -93,7 +93,7 @@ struct copy_impl< openmp_state< T >, openmp_state< T > >
     {
 #       pragma omp parallel for schedule(dynamic)
         for(size_t i = 0 ; i < from.size() ; i++)
-            std::copy( from[i].begin() , from[i].end() , to.begin() );
+            std::copy( from[i].begin() , from[i].end() , to[i].begin() );
     }
 };
 
-- 
2.43.0


From 4bcc65bd8fcc230124417e3f15d92880fc878eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:27 +0000
Subject: [PATCH 16/48] fix: integrate_const with dense output steppers does
 not step and observe beyond the end time

---
 .../numeric/odeint/integrate/detail/integrate_const.hpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
index 19b8ffd..f02ef87 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_const.hpp
@@ -136,11 +136,16 @@ size_t integrate_const(
                             end_time ,
                             st.current_time_step() ) )
         {
-            while( less_eq_with_sign( st.current_time() , time , dt ) )
+            // ... but do not step beyond the end point if the step size grows
+            do
             {
                 st.do_step( system );
                 ++real_step;
             }
+            while( less_eq_with_sign( st.current_time() , time , dt ) &&
+                   less_with_sign( static_cast<Time>(st.current_time()+st.current_time_step()) ,
+                                   end_time ,
+                                   st.current_time_step() ) );
         }
         else if( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
         { // do the last step ending exactly on the end point
-- 
2.43.0


From 722ede9aba32de4dbe98bdbd554dceae14445116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:08 +0000
Subject: [PATCH 17/48] fix: sign of the rosenbrock4 coefficient d4, which
 reduced the order to one for non-autonomous systems

---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 8613698..7f475d0 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -63,7 +63,7 @@ struct default_rosenbrock_coefficients
       d1 ( static_cast< value_type >( 0.25 ) ) ,
       d2 ( static_cast< value_type >( -0.1043 ) ) ,
       d3 ( static_cast< value_type >( 0.1035 ) ) ,
-      d4 ( static_cast< value_type >( 0.3620000000000023e-01 ) ) ,
+      d4 ( static_cast< value_type >( -0.3620000000000023e-01 ) ) ,
       c2 ( static_cast< value_type >( 0.386 ) ) ,
       c3 ( static_cast< value_type >( 0.21 ) ) ,
       c4 ( static_cast< value_type >( 0.63 ) ) ,
-- 
2.43.0


From 1d6643ddd8fc60a69ae71b264d816b217cccdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 18/48] fix: out-of-place try_step without derivative of the
 controlled FSAL stepper compiles and keeps the derivative

---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 164b9d2..c8957b1 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -682,7 +682,13 @@ public:
         {
             initialize( system , in , t );
         }
-        return try_step( system , in , m_dxdt.m_v , t , out , dt );
+        m_dxdt_new_resizer.adjust_size( in , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_new_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
+        controlled_step_result res = try_step( system , in , m_dxdt.m_v , t , out , m_dxdtnew.m_v , dt );
+        if( res == success )
+        {
+            boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
+        }
+        return res;
     }
 
 
-- 
2.43.0


From a7213250502cf1cc3ddbbee4ff9bb64ebae5f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:44 +0000
Subject: [PATCH 19/48] fix: initialize of FSAL steppers sizes the stored
 derivative before writing to it

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp    | 2 ++
 include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index b1d751a..7ceb5d4 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -286,6 +286,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_resizer.adjust_size( deriv , detail::bind( &internal_stepper_base_type::template resize_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -294,6 +295,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_resizer.adjust_size( x , detail::bind( &internal_stepper_base_type::template resize_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index c8957b1..32c9763 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -805,6 +805,7 @@ public:
     template< class DerivIn >
     void initialize( const DerivIn &deriv )
     {
+        m_dxdt_resizer.adjust_size( deriv , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< DerivIn > , detail::ref( *this ) , detail::_1 ) );
         boost::numeric::odeint::copy( deriv , m_dxdt.m_v );
         m_first_call = false;
     }
@@ -821,6 +822,7 @@ public:
     void initialize( System system , const StateIn &x , time_type t )
     {
         typename odeint::unwrap_reference< System >::type &sys = system;
+        m_dxdt_resizer.adjust_size( x , detail::bind( &controlled_runge_kutta::template resize_m_dxdt_impl< StateIn > , detail::ref( *this ) , detail::_1 ) );
         sys( x , m_dxdt.m_v , t );
         m_first_call = false;
     }
-- 
2.43.0


From a4531a229807ed21f0c49ffc7c77b97ba6bc6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 20/48] fix: initialize_controlled of the controlled Adams
 stepper records the step that was taken, not the next one

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 85ee4d0..e3bf158 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -184,6 +184,8 @@ public:
 
         for( size_t i=0 ; i<order_value; ++i )
         {
+            const time_type t_old = t;
+
             do
             {
                 res = stepper.try_step( system, inOut, t, dt );
@@ -192,7 +194,7 @@ public:
 
             system( inOut , m_dxdt.m_v , t );
             
-            coeff.predict(t-dt, dt);
+            coeff.predict(t_old, t-t_old); // dt is already the size of the next step
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
-- 
2.43.0


From 6f8b11263f53e54ac6243f753c4645dc035c75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 21/48] fix: the generation headers of the Runge-Kutta methods
 bring their factories along

---
 .../stepper/generation/generation_runge_kutta_cash_karp54.hpp   | 1 +
 .../generation/generation_runge_kutta_cash_karp54_classic.hpp   | 1 +
 .../odeint/stepper/generation/generation_runge_kutta_dopri5.hpp | 2 ++
 .../stepper/generation/generation_runge_kutta_fehlberg78.hpp    | 1 +
 4 files changed, 5 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54.hpp b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54.hpp
index 24ae547..f9d37ed 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54.hpp
@@ -21,6 +21,7 @@
 #include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
 #include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
 #include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp>
 
 
 namespace boost {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54_classic.hpp b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54_classic.hpp
index 1cc0f91..4bcf935 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54_classic.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_cash_karp54_classic.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
 #include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
 #include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp>
 
 
 namespace boost {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_dopri5.hpp b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_dopri5.hpp
index 1a607f3..6b12229 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_dopri5.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_dopri5.hpp
@@ -22,7 +22,9 @@
 #include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
 #include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
 #include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp>
 #include <boost/numeric/odeint/stepper/generation/make_dense_output.hpp>
+#include <boost/numeric/odeint/stepper/generation/generation_dense_output_runge_kutta.hpp>
 
 namespace boost {
 namespace numeric {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_fehlberg78.hpp b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_fehlberg78.hpp
index d89343b..1bd68fc 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_fehlberg78.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_runge_kutta_fehlberg78.hpp
@@ -21,6 +21,7 @@
 #include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
 #include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
 #include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp>
 
 namespace boost {
 namespace numeric {
-- 
2.43.0


From 5f68cb9010933c6b4a4d5aab0621520b41fb5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:36 +0000
Subject: [PATCH 22/48] fix: make_controlled takes the maximal step size in the
 time type of the stepper

---
 .../stepper/generation/generation_controlled_runge_kutta.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
index bad2bed..6c2c65c 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_runge_kutta.hpp
@@ -36,7 +36,7 @@ struct controller_factory< Stepper , controlled_runge_kutta< Stepper > >
     typedef typename controller_type::error_checker_type error_checker_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-- 
2.43.0


From 5903e58c42b5f27cc1dc51296263774c19321b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 23/48] fix: implicit_euler does not factorize the LU factors
 again in later Newton iterations

lu_factorize was applied to the already factorized matrix in each further
Newton iteration. With pivoting the corrections were wrong (slow or no
convergence) and uBLAS throws external_logic in debug builds.
---
 include/boost/numeric/odeint/stepper/implicit_euler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/implicit_euler.hpp b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
index f301988..7752597 100644
--- a/include/boost/numeric/odeint/stepper/implicit_euler.hpp
+++ b/include/boost/numeric/odeint/stepper/implicit_euler.hpp
@@ -112,7 +112,8 @@ public:
             //            m_jacobi *= dt;
             //            m_jacobi -= boost::numeric::ublas::identity_matrix< value_type >( x.size() );
 
-            solve( m_b.m_v , m_jacobi.m_v );
+            // m_jacobi already holds the LU factors, it must not be factorized again
+            boost::numeric::ublas::lu_substitute( m_jacobi.m_v , m_pm.m_v , m_b.m_v );
 
             m_x.m_v -= m_b.m_v;
         }
-- 
2.43.0


From 6ed7b7b0440a31013ee66c491d0fd4c2bb63faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:34 +0000
Subject: [PATCH 24/48] fix: integrate_adaptive of dense output steppers does
 not hang if t + dt misses the end time by rounding

---
 .../odeint/integrate/detail/integrate_adaptive.hpp       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 7516d44..8e7722f 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -130,11 +130,12 @@ size_t integrate_adaptive(
     size_t count = 0;
     st.initialize( start_state , start_time , dt );
 
-    while( less_with_sign( st.current_time() , end_time , st.current_time_step() ) )
+    while( less_with_sign( st.current_time() , end_time , dt ) )
     {
-        while( less_eq_with_sign( static_cast<Time>(st.current_time() + st.current_time_step()) ,
-               end_time ,
-               st.current_time_step() ) )
+        // compare with the remaining time, t + dt might miss end_time due to rounding
+        while( less_eq_with_sign( st.current_time_step() ,
+               static_cast<Time>(end_time - st.current_time()) ,
+               dt ) )
         {   //make sure we don't go beyond the end_time
             obs( st.current_state() , st.current_time() );
             st.do_step( system );
-- 
2.43.0


From adeb0e7b829f078dad1816bb4a0fae316332a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:10 +0000
Subject: [PATCH 25/48] fix: make_controlled of the adaptive Adams steppers
 uses the stepper handed over

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 6 ++++++
 .../generation_controlled_adams_bashforth_moulton.hpp       | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index e3bf158..14e49f8 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -160,6 +160,12 @@ public:
     m_step_adjuster( step_adjuster ), m_order_adjuster()
     {};
 
+    controlled_adams_bashforth_moulton(const step_adjuster_type &step_adjuster, const stepper_type &stepper)
+    :m_stepper( stepper ),
+    m_dxdt_resizer(), m_xerr_resizer(), m_xnew_resizer(),
+    m_step_adjuster( step_adjuster ), m_order_adjuster()
+    {};
+
     template< class ExplicitStepper, class System >
     void initialize(ExplicitStepper stepper, System system, state_type &inOut, time_type &t, time_type dt)
     {
diff --git a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
index ca95a1f..735428b 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp
@@ -38,17 +38,17 @@ struct controller_factory< Stepper , controlled_adams_bashforth_moulton< Stepper
     typedef controlled_adams_bashforth_moulton< stepper_type > controller_type;
     typedef typename controller_type::step_adjuster_type step_adjuster_type;
     typedef typename stepper_type::value_type value_type;
-    typedef typename stepper_type::value_type time_type;
+    typedef typename stepper_type::time_type time_type;
 
     controller_type operator()( value_type abs_error , value_type rel_error , const stepper_type &stepper )
     {
-        return controller_type(step_adjuster_type(abs_error, rel_error));
+        return controller_type(step_adjuster_type(abs_error, rel_error), stepper);
     }
 
     controller_type operator()( value_type abs_error , value_type rel_error ,
                                 time_type max_dt, const stepper_type &stepper )
     {
-        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt));
+        return controller_type( step_adjuster_type(abs_error, rel_error, max_dt), stepper);
     }
 };
 
-- 
2.43.0


From 241f9980d55fec7eed8e467ab73b2a5080e101e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:59 +0000
Subject: [PATCH 26/48] fix: the generation header of rosenbrock4 brings its
 factories along

---
 .../odeint/stepper/generation/generation_rosenbrock4.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
index 366cb5e..8e063f1 100644
--- a/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/generation/generation_rosenbrock4.hpp
@@ -22,6 +22,9 @@
 #include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
 #include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
 
+#include <boost/numeric/odeint/stepper/generation/make_controlled.hpp>
+#include <boost/numeric/odeint/stepper/generation/make_dense_output.hpp>
+
 
 namespace boost {
 namespace numeric {
-- 
2.43.0


From 735ee5392aa62253765d1f2a9c98e8d8e8df03b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 27/48] fix: norm_inf of thrust_algebra is the largest absolute
 value

---
 .../boost/numeric/odeint/external/thrust/thrust_algebra.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
index f33e862..b83c641 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_algebra.hpp
@@ -20,6 +20,8 @@
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_ALGEBRA_HPP_INCLUDED
 
 
+#include <cmath>
+
 #include <thrust/device_vector.h>
 #include <thrust/for_each.h>
 #include <thrust/iterator/zip_iterator.h>
@@ -40,7 +42,9 @@ namespace detail {
         __host__ __device__
         Value operator()( const Fac1 t1 , const Fac2 t2 ) const
         {
-            return ( abs( t1 ) < abs( t2 ) ) ? t2 : t1 ;
+            using std::abs;
+            const Value a1 = abs( t1 ) , a2 = abs( t2 );
+            return ( a1 < a2 ) ? a2 : a1 ;
         }
 
         typedef Value result_type;
-- 
2.43.0


From 9918f9ad66d6887c1e7ec47ebd6e8241f38676e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 28/48] fix: rel_error of the thrust and compute operations
 weighs x and dxdt separately

---
 .../numeric/odeint/external/compute/compute_operations.hpp      | 2 +-
 .../boost/numeric/odeint/external/thrust/thrust_operations.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/external/compute/compute_operations.hpp b/include/boost/numeric/odeint/external/compute/compute_operations.hpp
index 58d5f69..d819e7a 100644
--- a/include/boost/numeric/odeint/external/compute/compute_operations.hpp
+++ b/include/boost/numeric/odeint/external/compute/compute_operations.hpp
@@ -185,7 +185,7 @@ BOOST_PP_REPEAT_FROM_TO(2, 8, BOOST_ODEINT_COMPUTE_OPERATIONS, ~)
                             )
                         ),
                     get<0>(_1) = abs( get<0>(_1) ) /
-                        (m_eps_abs + m_eps_rel * (m_a_x * abs(get<1>(_1) + m_a_dxdt * abs(get<2>(_1)))))
+                        (m_eps_abs + m_eps_rel * (m_a_x * abs(get<1>(_1)) + m_a_dxdt * abs(get<2>(_1))))
                     );
         }
     };
diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index ce2d372..d1046d1 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -216,7 +216,7 @@ struct thrust_operations
         {
             using std::abs;
             thrust::get< 0 >( t ) = abs( thrust::get< 0 >( t ) ) /
-                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) ) );
+                    ( m_eps_abs + m_eps_rel * ( m_a_x * abs( thrust::get< 1 >( t ) ) + m_a_dxdt * abs( thrust::get< 2 >( t ) ) ) );
         }
 
         typedef void result_type;
-- 
2.43.0


From ef898d98b26f967fc8e2d576b487a026d02e7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 29/48] fix: norm_inf of ublas matrices is the largest absolute
 element

---
 include/boost/numeric/odeint/util/ublas_wrapper.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/ublas_wrapper.hpp b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
index c8facfc..f2aedb2 100644
--- a/include/boost/numeric/odeint/util/ublas_wrapper.hpp
+++ b/include/boost/numeric/odeint/util/ublas_wrapper.hpp
@@ -19,6 +19,8 @@
 #define BOOST_NUMERIC_ODEINT_UTIL_UBLAS_WRAPPER_HPP_INCLUDED
 
 
+#include <cmath>
+
 #include <boost/type_traits/integral_constant.hpp>
 #include <boost/numeric/ublas/vector.hpp>
 #include <boost/numeric/ublas/matrix.hpp>
@@ -57,7 +59,14 @@ namespace boost { namespace numeric { namespace odeint {
 
         result_type operator()( const boost::numeric::ublas::matrix<T,L,A> &x ) const
         {
-            return boost::numeric::ublas::norm_inf( x );
+            // the largest absolute element, ublas::norm_inf is the row sum norm
+            using std::abs;
+            result_type norm( 0 );
+            for( size_t i=0 ; i<x.size1() ; ++i )
+                for( size_t j=0 ; j<x.size2() ; ++j )
+                    if( norm < abs( x( i , j ) ) )
+                        norm = abs( x( i , j ) );
+            return norm;
         }
     };
 } } }
-- 
2.43.0


From 5e8ae0c1871f1592a47f42fa0558200387478d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:01 +0000
Subject: [PATCH 30/48] fix: scale_sum_swap2 of thrust_operations exchanges
 values

---
 .../numeric/odeint/external/thrust/thrust_operations.hpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
index d1046d1..594561a 100644
--- a/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
+++ b/include/boost/numeric/odeint/external/thrust/thrust_operations.hpp
@@ -18,6 +18,8 @@
 #ifndef BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_OPERATIONS_HPP_INCLUDED
 #define BOOST_NUMERIC_ODEINT_EXTERNAL_THRUST_THRUST_OPERATIONS_HPP_INCLUDED
 
+#include <boost/type_traits/remove_reference.hpp>
+
 namespace boost {
 namespace numeric {
 namespace odeint {
@@ -59,7 +61,7 @@ struct thrust_operations
         __host__ __device__
         void operator()( Tuple t ) const
         {
-            typename thrust::tuple_element<0,Tuple>::type tmp = thrust::get<0>(t);
+            typename boost::remove_reference< typename thrust::tuple_element<0,Tuple>::type >::type tmp = thrust::get<0>(t);
             thrust::get<0>(t) = m_alpha1 * thrust::get<1>(t) + m_alpha2 * thrust::get<2>(t);
             thrust::get<1>(t) = tmp;
         }
-- 
2.43.0


From 40550fa038f6c96dd3540195032645270d6d699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 31/48] fix: default_order_adjuster does not read an error
 estimate which was not computed

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 14e49f8..01d3a27 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -92,7 +92,12 @@ public:
         }
         else if(order <= MaxOrder)
         {
-            value_type errp = abs(m_algebra.norm_inf(xerr[3].m_v));
+            // the estimate of the next order exists only if there are enough steps for it
+            value_type errp = static_cast<value_type>(0);
+            if(order < MaxOrder && order < init)
+            {
+                errp = abs(m_algebra.norm_inf(xerr[3].m_v));
+            }
 
             if(order > 1 && errm1 < errc && errp)
             {
-- 
2.43.0


From fbbfdf88e7ce9e39bc1325720b58e1f90c0ac812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 32/48] fix: rotating_buffer initializes its elements

---
 include/boost/numeric/odeint/stepper/detail/rotating_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/detail/rotating_buffer.hpp b/include/boost/numeric/odeint/stepper/detail/rotating_buffer.hpp
index 2338afd..2b90927 100644
--- a/include/boost/numeric/odeint/stepper/detail/rotating_buffer.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/rotating_buffer.hpp
@@ -33,7 +33,7 @@ public:
     typedef T value_type;
     const static size_t dim = N;
 
-    rotating_buffer( void ) : m_first( 0 )
+    rotating_buffer( void ) : m_data() , m_first( 0 )
     { }
 
     size_t size( void ) const
-- 
2.43.0


From 7ad7d58c0b68f2a72bdc7c6b6fe69db19c9e798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:36 +0000
Subject: [PATCH 33/48] fix: copying a gsl_vector state copies the elements,
 not the pointer

---
 .../boost/numeric/odeint/external/gsl/gsl_wrapper.hpp    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
index d04308f..6e4b043 100644
--- a/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
+++ b/include/boost/numeric/odeint/external/gsl/gsl_wrapper.hpp
@@ -191,6 +191,15 @@ struct resize_impl< gsl_vector* , gsl_vector* >
     }
 };
 
+template <>
+struct copy_impl< gsl_vector* , gsl_vector* >
+{
+    static void copy( const gsl_vector* from , gsl_vector* to )
+    {
+        gsl_vector_memcpy( to , from );
+    }
+};
+
 template<>
 struct state_wrapper< gsl_vector* >
 {
-- 
2.43.0


From e86a3e97ca0391971304ab2e106f6d86eca7e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:50 +0000
Subject: [PATCH 34/48] fix: copying Eigen matrices compiles with Eigen 3.4 and
 later

---
 .../odeint/external/eigen/eigen_resize.hpp    | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
index 1989cc3..b949d72 100644
--- a/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
+++ b/include/boost/numeric/odeint/external/eigen/eigen_resize.hpp
@@ -22,6 +22,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/copy.hpp>
 
 #include <boost/utility/enable_if.hpp>
 #include <boost/type_traits/is_base_of.hpp>
@@ -99,6 +100,28 @@ struct resize_impl_sfinae< Derived , Derived ,
 
 
 
+// Eigen matrices have begin() since 3.4, but are iterable only if they are vectors
+template< class Derived >
+struct copy_impl_sfinae< Derived , Derived ,
+                         typename boost::enable_if< typename boost::is_base_of< Eigen::MatrixBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Derived &to )
+    {
+        to = from;
+    }
+};
+
+template< class Derived >
+struct copy_impl_sfinae< Derived , Derived ,
+                         typename boost::enable_if< typename boost::is_base_of< Eigen::ArrayBase< Derived > , Derived >::type >::type >
+{
+    static void copy( const Derived &from , Derived &to )
+    {
+        to = from;
+    }
+};
+
+
 } // namespace odeint
 } // namespace numeric
 } // namespace boost
-- 
2.43.0


From a27b522b8359ef7ee1db5442809c4a64de1b9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 35/48] fix: fusion_algebra includes the declaration of
 get_unit_value it uses

---
 include/boost/numeric/odeint/algebra/fusion_algebra.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/algebra/fusion_algebra.hpp b/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
index 0055e5d..5e783fb 100644
--- a/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
+++ b/include/boost/numeric/odeint/algebra/fusion_algebra.hpp
@@ -21,6 +21,7 @@
 #include <algorithm>
 
 #include <boost/numeric/odeint/config.hpp>
+#include <boost/numeric/odeint/util/unit_helper.hpp>
 
 #include <boost/fusion/container/vector.hpp>
 #include <boost/fusion/algorithm/iteration/for_each.hpp>
-- 
2.43.0


From 53c241f32b6dd7118e928514ffd5b04119b16b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 36/48] fix: integrate_times compiles with boost.units times

---
 .../numeric/odeint/integrate/detail/integrate_times.hpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
index bdef9c1..0352737 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_times.hpp
@@ -51,7 +51,7 @@ size_t integrate_times(
 
     stepper_type &st = stepper;
     observer_type &obs = observer;
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     if( start_time == end_time )
         return 0;
@@ -87,7 +87,7 @@ size_t integrate_times(
 {
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     if( start_time == end_time )
         return 0;
@@ -135,7 +135,7 @@ size_t integrate_times(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    typedef typename unit_value_type<Time>::type time_type;
+    typedef Time time_type;
 
     if( start_time == end_time )
         return 0;
-- 
2.43.0


From 4297d669e5a30bb8f6b5b146b825e683fc5fbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 37/48] fix: extract_value_type stops at numbers which are
 their own value_type

---
 .../odeint/algebra/detail/extract_value_type.hpp  | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp b/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
index c5246bb..ed3b806 100644
--- a/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
+++ b/include/boost/numeric/odeint/algebra/detail/extract_value_type.hpp
@@ -30,6 +30,19 @@ namespace detail {
 template< typename S , typename Enabler = void >
 struct extract_value_type {};
 
+template< typename S , typename V >
+struct follow_value_type
+{
+    typedef typename extract_value_type< V >::type type;
+};
+
+// numbers which are their own value_type, e.g. the real numbers of boost.multiprecision
+template< typename S >
+struct follow_value_type< S , S >
+{
+    typedef S type;
+};
+
 // as long as value_types are defined we go down the value_type chain
 // e.g. returning S::value_type::value_type::value_type
 
@@ -44,7 +57,7 @@ template< typename S >
 struct extract_value_type< S , typename boost::enable_if< has_value_type<S> >::type >
 {
     // go down the value_type
-    typedef typename extract_value_type< typename S::value_type >::type type;
+    typedef typename follow_value_type< S , typename S::value_type >::type type;
 };
 
 } } } }
-- 
2.43.0


From c11ddb5a9c551c09725077dd840a166d9a45bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 38/48] fix: adjust_size of the Rosenbrock controller also
 adjusts the contained stepper

---
 include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
index 5ad1600..b8a1256 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4_controller.hpp
@@ -183,6 +183,7 @@ public:
     {
         resize_m_xerr( x );
         resize_m_xnew( x );
+        m_stepper.adjust_size( x );
     }
 
 
-- 
2.43.0


From bdcf9f9a57faef34c7cba95936bea936e5b88f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 39/48] fix: reset of the controlled Adams stepper also forgets
 the error history of its step size controller

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp   | 2 +-
 .../numeric/odeint/stepper/detail/pid_step_adjuster.hpp     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 01d3a27..2e9da7b 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -289,7 +289,7 @@ public:
         }
     };
 
-    void reset() { m_stepper.reset(); };
+    void reset() { m_stepper.reset(); m_step_adjuster.reset(); };
 
 private:
     template< class StateType >
diff --git a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
index d40ccbe..e7d06c1 100644
--- a/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
+++ b/include/boost/numeric/odeint/stepper/detail/pid_step_adjuster.hpp
@@ -192,6 +192,12 @@ public:
         return dt * static_cast<time_type>(ratio);
     };
 
+    // forget the errors and step sizes of the previous steps
+    void reset()
+    {
+        m_init = 0;
+    };
+
 private:
     algebra_type m_algebra;
 
-- 
2.43.0


From 0a705157235fe437cd10642123eb5a58ad9a494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:39 +0000
Subject: [PATCH 40/48] fix: state wrappers of multi_array states can be
 assigned whatever their shapes

---
 .../odeint/util/multi_array_adaption.hpp      | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/util/multi_array_adaption.hpp b/include/boost/numeric/odeint/util/multi_array_adaption.hpp
index e2c0a48..2d9fe39 100644
--- a/include/boost/numeric/odeint/util/multi_array_adaption.hpp
+++ b/include/boost/numeric/odeint/util/multi_array_adaption.hpp
@@ -23,6 +23,7 @@
 #include <boost/numeric/odeint/util/is_resizeable.hpp>
 #include <boost/numeric/odeint/util/resize.hpp>
 #include <boost/numeric/odeint/util/same_size.hpp>
+#include <boost/numeric/odeint/util/state_wrapper.hpp>
 
 #include <boost/mpl/and.hpp>
 #include <boost/mpl/bool.hpp>
@@ -119,7 +120,30 @@ struct resize_impl_sfinae< T1 , T2 ,
         x1.reindex( origins );
     }
 };
-                            
+
+
+/*
+ * boost::multi_array can only be assigned if both arrays have the same shape, the states of steppers are resized first
+ */
+template< typename T >
+struct state_wrapper< T , typename boost::enable_if< typename is_resizeable_multi_array< T >::type >::type >
+{
+    typedef state_wrapper< T > state_wrapper_type;
+
+    T m_v;
+
+    state_wrapper() {}
+
+    state_wrapper( const state_wrapper &x ) : m_v( x.m_v ) {}
+
+    state_wrapper& operator=( const state_wrapper &x )
+    {
+        if( !same_size( m_v , x.m_v ) )
+            resize( m_v , x.m_v );
+        m_v = x.m_v;
+        return *this;
+    }
+};
 
 
 } // namespace odeint
-- 
2.43.0


From 9b5aa9f3472240a1166344ce1545247e61d5743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 41/48] fix: initially_resizer resizes again if the first
 resize has thrown

---
 include/boost/numeric/odeint/util/resizer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/util/resizer.hpp b/include/boost/numeric/odeint/util/resizer.hpp
index fd969ec..d36cb9d 100644
--- a/include/boost/numeric/odeint/util/resizer.hpp
+++ b/include/boost/numeric/odeint/util/resizer.hpp
@@ -68,8 +68,9 @@ struct initially_resizer
     {
         if( !m_initialized )
         {
-            m_initialized = true;
-            return f( x );
+            const bool resized = f( x );
+            m_initialized = true; // only if resizing has not thrown
+            return resized;
         } else
             return false;
     }
-- 
2.43.0


From 7a8d93e6a4ad730c0332a17f6b5511acb191a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 42/48] fix: an interrupted attempt of the controlled Adams
 stepper leaves the step size as it was

---
 .../odeint/stepper/controlled_adams_bashforth_moulton.hpp  | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
index 2e9da7b..4b50876 100644
--- a/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp
@@ -242,12 +242,14 @@ public:
         coeff_type &coeff = m_stepper.coeff();
 
         time_type dtPrev = dt;
-        dt = m_step_adjuster.adjust_stepsize(coeff.m_eo, dt, m_xerr[2].m_v, out, m_stepper.dxdt() );
+        time_type dtNew = m_step_adjuster.adjust_stepsize(coeff.m_eo, dt, m_xerr[2].m_v, out, m_stepper.dxdt() );
 
-        if(dt / dtPrev >= step_adjuster_type::threshold())
+        if(dtNew / dtPrev >= step_adjuster_type::threshold())
         {
             system(out, m_dxdt.m_v, t+dtPrev);
 
+            dt = dtNew;
+
             coeff.do_step(m_dxdt.m_v);
             coeff.confirm();
 
@@ -285,6 +287,7 @@ public:
         }
         else
         {
+            dt = dtNew;
             return fail;
         }
     };
-- 
2.43.0


From d8d55c875725909bc45232d32e00f853f0b8cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:07 +0000
Subject: [PATCH 43/48] fix: temporaries of MPI states take part in the
 communicator of the state

---
 include/boost/numeric/odeint/external/mpi/mpi_state.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
index aba179c..7aa8b63 100644
--- a/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
+++ b/include/boost/numeric/odeint/external/mpi/mpi_state.hpp
@@ -65,8 +65,9 @@ struct same_size_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static bool same_size( const mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
-        const bool local = boost::numeric::odeint::same_size(x(), y());
-        return boost::mpi::all_reduce(x.world, local, mpi::bitwise_and<bool>());
+        // a state of another communicator has to be resized, too; y decides who takes part.
+        const bool local = x.world == y.world && boost::numeric::odeint::same_size(x(), y());
+        return boost::mpi::all_reduce(y.world, local, mpi::bitwise_and<bool>());
     }
 };
 
@@ -76,6 +77,8 @@ struct resize_impl< mpi_state< InnerState1 > , mpi_state< InnerState2 > >
 {
     static void resize( mpi_state< InnerState1 > &x , const mpi_state< InnerState2 > &y )
     {
+        // the data is distributed among the same nodes.
+        x.world = y.world;
         // resize local parts on each node.
         boost::numeric::odeint::resize(x(), y());
     }
-- 
2.43.0


From 46e4c4752de2eef46b86ac38517269c234421482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 44/48] fix: the iterator-based integrate_adaptive with a
 dense-output stepper updates the passed state

The adaptive iterators work on the stepper they are given, the passed state
was never written. The stepper is now shared with the range and its final
state copied back.
---
 .../iterator/integrate/detail/integrate_adaptive.hpp      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
index ccbbf49..0297cfd 100644
--- a/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/iterator/integrate/detail/integrate_adaptive.hpp
@@ -22,6 +22,8 @@
 
 #include <boost/numeric/odeint/stepper/stepper_categories.hpp>
 #include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
+#include <boost/ref.hpp>
+
 #include <boost/numeric/odeint/iterator/integrate/detail/integrate_const.hpp>
 #include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
 #include <boost/numeric/odeint/iterator/integrate/detail/functors.hpp>
@@ -101,10 +103,14 @@ size_t integrate_adaptive(
         Observer observer , dense_output_stepper_tag )
 {
     size_t obs_calls = 0;
+    typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    boost::for_each( make_adaptive_time_range( stepper , system , start_state ,
+    // the iterators must work on st and not on a copy, as st holds the final state
+    boost::for_each( make_adaptive_time_range( boost::ref( st ) , system , start_state ,
                                                start_time , end_time , dt ) ,
                      obs_caller< Observer >( obs_calls , observer ) );
+    // overwrite start_state with the final point
+    boost::numeric::odeint::copy( st.current_state() , start_state );
 
     return obs_calls-1;
 }
-- 
2.43.0


From a1f073f8d586f9b8f549bfe712ec8475753778de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:00 +0000
Subject: [PATCH 45/48] fix: controlled FSAL steppers do not mix up derivatives
 of different call forms

After an attempt with a user-supplied derivative, forms which keep the
derivative in the stepper used the one of an earlier step.
---
 .../numeric/odeint/stepper/controlled_runge_kutta.hpp     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 32c9763..57fbb87 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -688,6 +688,7 @@ public:
         {
             boost::numeric::odeint::copy( m_dxdtnew.m_v , m_dxdt.m_v );
         }
+        m_first_call = false; // m_dxdt is the derivative of the current state, also after a failed step
         return res;
     }
 
@@ -759,6 +760,9 @@ public:
     controlled_step_result try_step( System system , const StateIn &in , const DerivIn &dxdt_in , time_type &t ,
             StateOut &out , DerivOut &dxdt_out , time_type &dt )
     {
+        // the derivative is supplied, hence the internal one does not belong to the current state any more
+        m_first_call = true;
+
         unwrapped_step_adjuster &step_adjuster = m_step_adjuster;
         if( !step_adjuster.check_step_size_limit(dt) )
         {
@@ -908,7 +912,9 @@ private:
         {
             initialize( system , x , t );
         }
-        return try_step( system , x , m_dxdt.m_v , t , dt );
+        controlled_step_result res = try_step( system , x , m_dxdt.m_v , t , dt );
+        m_first_call = false; // m_dxdt is the derivative of the current state, also after a failed step
+        return res;
     }
 
 
-- 
2.43.0


From 6b8a0963f8e2879502fda535bc590bd4ab63c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:43 +0000
Subject: [PATCH 46/48] fix: adjust_size of FSAL steppers discards the
 derivative of the old size

---
 .../odeint/stepper/base/explicit_error_stepper_fsal_base.hpp  | 4 +++-
 .../boost/numeric/odeint/stepper/controlled_runge_kutta.hpp   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
index 7ceb5d4..9b1d62c 100644
--- a/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
+++ b/include/boost/numeric/odeint/stepper/base/explicit_error_stepper_fsal_base.hpp
@@ -275,7 +275,9 @@ public:
     template< class StateIn >
     void adjust_size( const StateIn &x )
     {
-        resize_impl( x );
+        // the stored derivative does not belong to a state of the new size
+        if( resize_impl( x ) )
+            m_first_call = true;
     }
 
     void reset( void )
diff --git a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
index 57fbb87..f9184ac 100644
--- a/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
+++ b/include/boost/numeric/odeint/stepper/controlled_runge_kutta.hpp
@@ -850,7 +850,9 @@ public:
     void adjust_size( const StateType &x )
     {
         resize_m_xerr_impl( x );
-        resize_m_dxdt_impl( x );
+        // the stored derivative does not belong to a state of the new size
+        if( resize_m_dxdt_impl( x ) )
+            m_first_call = true;
         resize_m_dxdt_new_impl( x );
         resize_m_xnew_impl( x );
         m_stepper.adjust_size( x );
-- 
2.43.0


From 0277c3b82e6517b26114b8ac23f575e63f7dc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:18 +0000
Subject: [PATCH 47/48] fix: integrate_adaptive with a plain stepper works for
 times with units

The end of the equidistant part was computed as Time + Time * int, which
does not compile if Time is a boost::units quantity with floating point
value type.
---
 .../numeric/odeint/integrate/detail/integrate_adaptive.hpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
index 8e7722f..01f28a1 100644
--- a/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
+++ b/include/boost/numeric/odeint/integrate/detail/integrate_adaptive.hpp
@@ -30,6 +30,7 @@
 #include <boost/numeric/odeint/util/bind.hpp>
 #include <boost/numeric/odeint/util/unwrap_reference.hpp>
 #include <boost/numeric/odeint/util/copy.hpp>
+#include <boost/numeric/odeint/util/unit_helper.hpp>
 
 #include <boost/numeric/odeint/util/detail/less_with_sign.hpp>
 
@@ -63,7 +64,7 @@ size_t integrate_adaptive(
     typename odeint::unwrap_reference< Observer >::type &obs = observer;
     typename odeint::unwrap_reference< Stepper >::type &st = stepper;
 
-    Time end = start_time + dt*steps;
+    Time end = start_time + static_cast< typename unit_value_type<Time>::type >(steps) * dt;
     if( less_with_sign( end , end_time , dt ) )
     {   //make a last step to end exactly at end_time
         st.do_step( system , start_state , end , end_time - end );
-- 
2.43.0


From 908c05f7863bb7e650a6eef8e4425401be3d1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:18 +0000
Subject: [PATCH 48/48] fix: rosenbrock4_dense_output::calc_state accepts
 ranges

The overload for const references to ranges handed its argument to
rosenbrock4::calc_state, which accepted the exact state type only, so it
never compiled.
---
 include/boost/numeric/odeint/stepper/rosenbrock4.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
index 7f475d0..a9ce6d8 100644
--- a/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
+++ b/include/boost/numeric/odeint/stepper/rosenbrock4.hpp
@@ -271,7 +271,8 @@ public:
     }
 
 
-    void calc_state( time_type t , state_type &x ,
+    template< class StateOut >
+    void calc_state( time_type t , StateOut &x ,
             const state_type &x_old , time_type t_old ,
             const state_type &x_new , time_type t_new )
     {
-- 
2.43.0

