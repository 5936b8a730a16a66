From ec2a8960c504290a0ff6f9adb90fce9fce0656d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:36 +0000
Subject: [PATCH 01/87] fix: quaternion from rotation matrix is wrong for
 rotations close to 180 degrees

---
 src/utMath/Quaternion.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..ef29884 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,8 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	// use the first column only if it is well conditioned, T vanishes for rotations by 180 degrees
+	if (T > 1.0) {
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
@@ -65,6 +66,13 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 
 	// Quaternion has to be inverted, as the above code from the
 	// Matrix and Quaternion FAQ expects a column-major matrix.
+	// The sign is chosen such that the real part is never positive.
+	if ( W < 0 ) {
+		X = -X;
+		Y = -Y;
+		Z = -Z;
+		W = -W;
+	}
 	a = -W;
 	b =  X;
 	c =  Y;
-- 
2.43.0


From ef9478c0d33ef5b238afefa58be68e14826b3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:04 +0000
Subject: [PATCH 02/87] fix: Euler angles are wrong close to the poles

---
 src/utMath/Quaternion.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index ef29884..3a2c083 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -185,7 +185,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	double beta  = 2 * ( w_*y_ + sign*x_*z_ );
 
 	// Singularity at north pole
-	if ( beta > 0.998 ) 
+	if ( beta > 1 - 1e-12 ) 
 	{
 		alpha = 2 * atan2( x_, w_ );
 		beta  = boost::math::constants::pi<double>() / 2;
@@ -194,9 +194,9 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 		return Vector< double, 3 >( alpha, beta, gamma );
 	}
 	// Singularity at south pole
-	if ( beta < -0.998 ) 
+	if ( beta < -1 + 1e-12 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From 58675cc3507d2b862e7a50cdbfb65a89abcf1945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 03/87] fix: angle and axis-angle of a quaternion are NaN if
 rounding left |w| > 1

---
 src/utMath/Quaternion.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..0715f01 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -177,7 +177,11 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{
+			const double absW = w() > 0 ? w() : -w();
+			// rounding may leave a real part slightly larger than one
+			return absW < 1 ? 2 * acos( absW ) : 0;
+		}
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -323,9 +327,11 @@ template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
 	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// rounding may violate this slightly, which must not lead to undefined values
+	const double w = a > 1 ? 1 : ( a < -1 ? -1 : a );
+	angle = 2 * acos( w );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( 1 - w*w );
 	// test to avoid divide by zero, s is always positive due to sqrt
 	if (s < 0.001) { 
 		// if s close to zero then direction of axis not important
-- 
2.43.0


From 363b78731bb1ad80dd171c5e7e3dddc42e8c7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 04/87] fix: RotationCast from matrix to quaternion mixes up
 signs close to 180 degrees

---
 src/utMath/Util/RotationCast.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..05d96ba 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -100,13 +100,37 @@ struct RotationCast< Math::Quaternion >
 		const T m00div4 = matrix( 0, 0 ) / 4;
 		const T m11div4 = matrix( 1, 1 ) / 4;
 		const T m22div4 = matrix( 2, 2 ) / 4;
-		const T qw = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 + m11div4 + m22div4 ) ) ) );
+		T qw = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 + m11div4 + m22div4 ) ) ) );
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+		T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+		T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+
+		// close to 180 degrees the antisymmetric part vanishes and its signs are meaningless,
+		// the signs relative to the largest component are given by the symmetric part
+		if ( qw < 0.1 )
+		{
+			if ( qxt >= qyt && qxt >= qzt )
+			{
+				qy = ( matrix( 0, 1 ) + matrix( 1, 0 ) ) * qx < 0 ? -qyt : qyt;
+				qz = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qx < 0 ? -qzt : qzt;
+				qw = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) / ( 4 * qx );
+			}
+			else if ( qyt >= qzt )
+			{
+				qx = ( matrix( 0, 1 ) + matrix( 1, 0 ) ) * qy < 0 ? -qxt : qxt;
+				qz = ( matrix( 1, 2 ) + matrix( 2, 1 ) ) * qy < 0 ? -qzt : qzt;
+				qw = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) / ( 4 * qy );
+			}
+			else
+			{
+				qx = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qz < 0 ? -qxt : qxt;
+				qy = ( matrix( 1, 2 ) + matrix( 2, 1 ) ) * qz < 0 ? -qyt : qyt;
+				qw = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) / ( 4 * qz );
+			}
+		}
 		return return_type( qx, qy, qz, qw );
 	}
 	
-- 
2.43.0


From e4f99c0ba9b76476c863c3dcddead425dfc22adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 05/87] fix: RotationCast from quaternion to axis-angle is NaN
 for the identity

---
 src/utMath/Util/RotationCast.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 05d96ba..d93560d 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -189,8 +189,13 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const double imaginary = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		// no rotation, there is no axis
+		if( imaginary < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+
+		const T angle = static_cast< T >( 2 * std::atan2( imaginary, quat.w() ) );
+		const T divisor = static_cast< T >( imaginary );
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
-- 
2.43.0


From 0aca398d7cdd57fa10bd1a19c5cac69b30001210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:36 +0000
Subject: [PATCH 06/87] fix: RotationCast from matrix to axis-angle is wrong or
 NaN at 0 and 180 degrees

---
 src/utMath/Util/RotationCast.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index d93560d..76cec1d 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -225,6 +225,10 @@ struct RotationCast< Math::Vector< T, 4 > >
 		// const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
 		// return RotationCast< return_type >()( quat );
 		
+		// the antisymmetric part, which is used below, vanishes for a rotation by 180 degrees
+		if( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) < 0 )
+			return (*this)( RotationCast< Math::Quaternion >()( matrix ) );
+		
 		/// @todo put in more checks, this transformation is not really reliable at the moment
 		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
 		if ( angle != angle || angle < 1e-10 )
@@ -236,6 +240,9 @@ struct RotationCast< Math::Vector< T, 4 > >
 		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
 		
 		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
+		// no rotation apart from rounding errors
+		if ( divisor == 0 )
+			return return_type( 0, 0, 0, 0 );
 		//std::cout << " Divisor " << divisor << "\n";
 		const T rx = m2112 / divisor;
 		const T ry = m0220 / divisor;
-- 
2.43.0


From 8c0e0fde7c06cf12686526ca05ba46ce929aa7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:01 +0000
Subject: [PATCH 07/87] fix: inverting an ErrorPose flips the sign of the
 translation-rotation correlation

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..517fe04 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - 1. - t5445 - t5446;
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - 1. - t5446 - t5453;
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - 1. - t5445 - t5453;
 }
 
 
-- 
2.43.0


From 300be8b8f967499d8a54a99ecba9ffd886758bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:01 +0000
Subject: [PATCH 08/87] fix: invertMultiply propagates the covariance of a*b
 instead of inverse(a)*b

---
 src/utMath/ErrorPose.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 517fe04..68a876e 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -595,10 +595,11 @@ ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 	Matrix< double, 6, 6 > jacobian2;
 	Matrix< double, 6, 6 > tmp;
 	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
+	const ErrorPose aInverse( ~a );
+	multiplicationJacobians( jacobian1, jacobian2, aInverse, b );
 	
 	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
+	noalias( tmp ) = ublas::prod( jacobian1, aInverse.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
 	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
 	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-- 
2.43.0


From 104fe197a3ef0a9a8e2f47257467429c572d15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:01 +0000
Subject: [PATCH 09/87] fix: ErrorPose times ErrorVector ignores the covariance
 of the vector

---
 src/utMath/ErrorPose.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 68a876e..9cd9aaf 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -584,6 +584,11 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// the error of the vector itself
+	const Matrix< double, 3, 3 > rotation( a.rotation() );
+	const Matrix< double, 3, 3 > rotatedCovariance( ublas::prod( rotation, b.covariance ) );
+	noalias( newCovariance ) += ublas::prod( rotatedCovariance, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From 2675737550297310d672e409704ea2f730f631ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:01 +0000
Subject: [PATCH 10/87] fix: additive form of an ErrorPose rotates the
 orientation error the wrong way

---
 src/utMath/ErrorPose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 9cd9aaf..e08736f 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -623,7 +623,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -631,7 +631,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
-- 
2.43.0


From 7a271bd11af117d7871b370be4ef1b35423d4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:09 +0000
Subject: [PATCH 11/87] fix: msgpack encoding of non-square matrices mixes up
 the elements

The flat index of element (i,j) of an M x N matrix is i*N+j.
---
 src/utSerialization/MsgpackSerializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..66efd9f 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +402,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 4367b60b096ed3ffaedf6f021ffa25383ac968a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 12/87] fix: msgpack object of a vector only sets its first
 element

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 66efd9f..8002f47 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From a9601a8cee8efc2e7f1a31deaf44a8311a2be315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 13/87] fix: msgpack as<Measurement> reads the timestamp as
 payload

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 8002f47..47cd0fe 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From 437aef75a296603765a1ffd15ccff409000896ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 14/87] fix: reading an incomplete msgpack message silently
 keeps the old value

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 47cd0fe..2bd36a8 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -75,7 +75,7 @@ struct MsgpackSerializationFormat {
           msgpack::object obj = oh.get();
           obj.convert<T>(t);
       } else {
-          // throw ??
+          throw StreamOverrunException("Incomplete msgpack message");
       }
   }
 
-- 
2.43.0


From c679e9f8a0ab57b2f45fc8c856882b4d1d78b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:30 +0000
Subject: [PATCH 15/87] fix: archiving a measurement without payload
 dereferences a null pointer

---
 src/utMeasurement/Measurement.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index 4a0e7fa..ca315c1 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -43,6 +43,7 @@
 #include <utMath/Scalar.h>
 #include <utMath/RotationVelocity.h>
 #include <utMath/CameraIntrinsics.h>
+#include <utUtil/Exception.h>
 
 // std
 #include <vector>
@@ -247,6 +248,12 @@ class Measurement
 		template< class Archive > 
 		void serialize( Archive& ar, const unsigned int version )
 		{
+			if ( !this->get() )
+			{
+				if ( Archive::is_saving::value )
+					UBITRACK_THROW( "Cannot serialize a measurement without payload" );
+				this->reset( new Type() );
+			}
 			ar & m_timestamp;
 			ar & ( *(this->get()) );
 		}
-- 
2.43.0


From 06ca235c5b5391798c43912f5afdedc2a4290afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 16/87] fix: reading a dynamically sized vector from msgpack
 writes out of bounds

---
 src/utSerialization/MsgpackSerializer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2bd36a8..d5b3b37 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -271,6 +271,9 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
       }
+      else {
+          v.resize(num_elements, false);
+      }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
           //v(i) = o.via.array.ptr[i].as<T>();
-- 
2.43.0


From c7683dbccbf6d4d9bac4af83fd30cc73fd31cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 17/87] fix: camera intrinsics with 3 radial parameters claim
 to have 2

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From 3b25c7bcb3767fb68820d816c1cd02b21b04f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 18/87] fix: fish-eye camera intrinsics leave radial parameters
 uninitialized

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From e359bf4ba278671a01fb7d80395acd850e5097ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 19/87] fix: number of radial parameters is not checked when
 reading camera intrinsics

---
 src/utMath/CameraIntrinsics.h           | 3 +++
 src/utSerialization/MsgpackSerializer.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..da9d54d 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -43,6 +43,7 @@
 //Ubitrack
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
 
 namespace Ubitrack { namespace Math {
 
@@ -287,6 +288,8 @@ protected:
 		ar & dimension( 0 );
 		ar & dimension( 1 );		
 		ar & radial_size;
+		if( radial_size > 6 )
+			UBITRACK_THROW( "Too many radial distortion parameters" );
 		
 		for( std::size_t i = 0; i < radial_size; ++i )
 			ar & radial_params[ i ];
diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index d5b3b37..d589332 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -719,6 +719,7 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
       result.radial_size = o.via.array.ptr[3].as<std::size_t>();
+      if (result.radial_size > 6) throw msgpack::type_error();
       result.radial_params = o.via.array.ptr[4].as<Ubitrack::Math::Vector< T, 6 > >();
       result.tangential_params = o.via.array.ptr[5].as<Ubitrack::Math::Vector< T, 2 > >();
       return result;
@@ -738,6 +739,7 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
 	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], v.radial_size);
+      if (v.radial_size > 6) throw msgpack::type_error();
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 6 > >()(o.via.array.ptr[4], v.radial_params);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 2 > >()(o.via.array.ptr[5], v.tangential_params);
       return o;
-- 
2.43.0


From a0f8a958b1ca652e65efdbb035aeaa5578a69075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 20/87] fix: calibration type is not checked when reading
 camera intrinsics from msgpack

---
 src/utSerialization/MsgpackSerializer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index d589332..7d21457 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -715,7 +715,10 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size != 6) throw msgpack::type_error();
       Ubitrack::Math::CameraIntrinsics<T> result;
-      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(o.via.array.ptr[0].as<int>());
+      const int calib_type = o.via.array.ptr[0].as<int>();
+      if (calib_type < Ubitrack::Math::CameraIntrinsics<T>::UNKNOWN || calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE)
+          throw msgpack::type_error();
+      result.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
       result.radial_size = o.via.array.ptr[3].as<std::size_t>();
@@ -735,6 +738,8 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
       if (o.via.array.size != 6) throw msgpack::type_error();
 	  int calib_type;
 	  msgpack::adaptor::convert<int>()(o.via.array.ptr[0], calib_type);
+      if (calib_type < Ubitrack::Math::CameraIntrinsics<T>::UNKNOWN || calib_type > Ubitrack::Math::CameraIntrinsics<T>::OPENCV_4_0_FISHEYE)
+          throw msgpack::type_error();
       v.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
-- 
2.43.0


From 66f858a9e66d3f383ec598e06b5064ab09222b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:10 +0000
Subject: [PATCH 21/87] fix: camera intrinsics keep a stale calibration type
 when re-read

---
 src/utMath/CameraIntrinsics.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da9d54d..3dd523a 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -232,6 +232,9 @@ public:
 			case 6 : // wide-angle parameters
 				calib_type = OPENCV_6_2;
 				break;
+			default:
+				calib_type = UNKNOWN;
+				break;
 		}
 	}
 	
-- 
2.43.0


From 0eb88e8247b3b962bf901848dddcc35bd50d824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:36 +0000
Subject: [PATCH 22/87] fix: general camera intrinsics constructor ignores the
 image size

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 3dd523a..7b72766 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -195,7 +195,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >(width ? width : size( 0 ), height ? height : size( 1 )))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From 8af9b626347a848941e154e2286b640d1aceb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 23/87] fix: reading a damaged measurement calibration file
 throws a foreign exception

Like the other readers, report any unreadable file as Util::Exception, also
when the archive header is damaged.
---
 src/utUtil/CalibFile.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..8f0c155 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,10 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
+
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +146,10 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
+
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0


From c1a7fd7148188e2f34e739b37a9a5403bdad1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:06 +0000
Subject: [PATCH 24/87] fix: writing a calibration file does not report a
 failed write

---
 src/utUtil/CalibFile.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 8f0c155..255fa67 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -173,11 +173,17 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	{
+		// create oarchive
+		boost::archive::text_oarchive archive( stream );
 
-	// read data
-	archive << data;
+		// write data
+		archive << data;
+	}
+
+	stream.close();
+	if ( stream.fail() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -193,11 +199,17 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	{
+		// create oarchive
+		boost::archive::binary_oarchive archive(stream);
+
+		// write data
+		archive << data;
+	}
 
-	// read data
-	archive << data;
+	stream.close();
+	if (stream.fail())
+		UBITRACK_THROW("Could not write file " + sFile);
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From 0672ca24b5ce37f547f229cac08b8ab591ae4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:33 +0000
Subject: [PATCH 25/87] fix: dynamically sized vectors and matrices always
 compare equal

---
 src/utMath/Matrix.h | 6 ++++--
 src/utMath/Vector.h | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Matrix.h b/src/utMath/Matrix.h
index 7a5e02d..86c9809 100644
--- a/src/utMath/Matrix.h
+++ b/src/utMath/Matrix.h
@@ -409,8 +409,10 @@ void leftHandToRightHandMatrix(Ma& matrix)
 template<  typename T, std::size_t M, std::size_t N >
 bool operator==( const Matrix< T, M, N >& a, const Matrix< T, M, N >& b )
 {
-	for ( std::size_t r = 0; r < M; r++ )
-		for ( std::size_t c = 0; c < N; c++ )
+	if ( a.size1() != b.size1() || a.size2() != b.size2() )
+		return false;
+	for ( std::size_t r = 0; r < a.size1(); r++ )
+		for ( std::size_t c = 0; c < a.size2(); c++ )
 			if ( a( r, c ) != b( r, c ) )
 				return false;
 	return true;
diff --git a/src/utMath/Vector.h b/src/utMath/Vector.h
index fdbb3be..8ccb7f7 100644
--- a/src/utMath/Vector.h
+++ b/src/utMath/Vector.h
@@ -335,7 +335,9 @@ Vector < T, N > linearInterpolate ( const Vector< T, N >& x, const Vector< T, N
 template< typename T, std::size_t N >
 bool operator==( const Vector< T, N >& a, const Vector< T, N >& b )
 {
-	for ( std::size_t c = 0; c < N; c++ )
+	if ( a.size() != b.size() )
+		return false;
+	for ( std::size_t c = 0; c < a.size(); c++ )
 		if ( a( c ) != b( c ) )
 			return false;
 	return true;
-- 
2.43.0


From 9c8f813a0c73f36d098c60960d4988a0c0aec23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:33 +0000
Subject: [PATCH 26/87] fix: pseudo-inverse of rank-deficient matrices inverts
 rounding errors

---
 src/utMath/MatrixOperations.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/MatrixOperations.h b/src/utMath/MatrixOperations.h
index 9a96b2b..966f754 100644
--- a/src/utMath/MatrixOperations.h
+++ b/src/utMath/MatrixOperations.h
@@ -39,6 +39,8 @@
 
 
 #include <utUtil/StaticAssert.h>
+#include <algorithm> // std::max, std::min
+#include <limits>
 
 #ifdef HAVE_LAPACK
 #include <boost/numeric/bindings/lapack/gesv.hpp>
@@ -121,12 +123,14 @@ Math::Matrix< T, N, M > pseudoInvert_matrix( const Math::Matrix< T, M, N >& mat
 
 	boost::numeric::bindings::lapack::gesvd( 'S', 'S', a, s, U, Vt );
 
+	// singular values below the rounding error count as zero
+	const T threshold = nSingularValues ? s( 0 ) * std::max( n, m ) * std::numeric_limits< T >::epsilon() : T( 0 );
 	for( size_type i=0; i<nSingularValues; i++ )
 	{
-		if( s( i ) != 0 )
-		{
+		if( s( i ) > threshold )
 			s( i ) = static_cast< T >( 1 ) / s( i );
-		}
+		else
+			s( i ) = 0;
 	}
 
 	if( n > m )
-- 
2.43.0


From 6d6614d49f5cc691803ffc539c471fcbf495f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:34 +0000
Subject: [PATCH 27/87] fix: 4x4 transformation of homogeneous points uses a
 wrong matrix element

---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From aaf08e4defdbc630bdd7d93bece7e223202bfb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:58 +0000
Subject: [PATCH 28/87] fix: angle of a conic is NaN for circles and not the
 major axis for some ellipses

---
 src/utMath/Geometry/Conic.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..5ff260e 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,9 +266,11 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
-		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
-		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
-		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
+		// the major semi-axis points along the eigenvector of the smaller eigenvalue (in magnitude),
+		// the overall sign of the conic does not matter, and any axis is fine for a circle
+		const T sign = static_cast< T > ( ( a + c ) < 0 ? -1 : 1 );
+		const T angle = std::atan2( -sign * b, sign * ( c - a ) ) * static_cast< T > ( 0.5 );
+		return ( sign * ( c - a ) >= 0 || angle > 0 ) ? angle : static_cast< T > ( M_PI ) + angle;
 	}
 };
 
-- 
2.43.0


From 4fbd52e1770b4fe6d2843545bb261ecd69e4a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:58 +0000
Subject: [PATCH 29/87] fix: eccentricity of a conic uses half of the mixed
 coefficient

---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 5ff260e..204b230 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -440,7 +440,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From 0bf32b862a29d8f765b38b73925a76a55ec46c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 30/87] fix: center of a parabola is infinite instead of an
 error

---
 src/utMath/Geometry/Conic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 204b230..a15db6f 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -397,9 +397,10 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		const T denominator = b*b - a*c;
+		if( denominator == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / denominator;
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From 438616ca7a6c6e23ddfd9c994d05499a4b9c554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:14 +0000
Subject: [PATCH 31/87] fix: assignment solver does not remember the uncovered
 zero it found

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 4caabbaf6a6692ea77e4dbffc8ad41296553e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:14 +0000
Subject: [PATCH 32/87] fix: assignment solver pads non-square problems with a
 wrong range

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From 9d88a06f3c6aa7ce2e1cdf6b0cf8c160593dfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:11 +0000
Subject: [PATCH 33/87] fix: Levenberg-Marquardt accepts steps that lead to an
 undefined error

---
 src/utMath/Optimization/LevenbergMarquardt.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..21314ef 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -208,7 +208,8 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
+		// note: the negation also rejects a step that leads to an undefined (NaN) error
+		if ( !( fErr < fErrPrev ) )
 			fLambda *= T( fStepFactor );
 		else
 		{
-- 
2.43.0


From a85f1e1bb9d09318ead625d46b81d768299e9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:52 +0000
Subject: [PATCH 34/87] fix: downhill simplex optimizer does not compile

---
 src/utMath/Optimization/DownhillSimplex.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/DownhillSimplex.h b/src/utMath/Optimization/DownhillSimplex.h
index 4967e5d..544fcf0 100644
--- a/src/utMath/Optimization/DownhillSimplex.h
+++ b/src/utMath/Optimization/DownhillSimplex.h
@@ -38,6 +38,11 @@
 
 namespace Ubitrack { namespace Math { namespace Optimization {
 
+template<  class T, class P, class VT2, class NT > 
+T downhillSimplexTry( Math::Matrix< T, 0, 0 >& p, Math::Vector< T >& y, 
+	Math::Vector< T >& psum, P& problem, unsigned ihi, T fac, Math::Vector< T >& eval, 
+	const VT2& measurement, const NT& normalize );
+
 /**
  * Downhill simplex minimizer � la Nelder and Mead (1965).
  * Adapted to boost::ublas from numerical recipes.
@@ -59,7 +64,7 @@ typename VT1::value_type downhillSimplex( const P& problem, VT1& params, const V
 
 	// initialize the starting points of the simplex
 	unsigned ndim = params.size();
-	Math::Matrix< VType, 0, 0 > p( ndim + 1, ndim );
+	Math::Matrix< T, 0, 0 > p( ndim + 1, ndim );
 	ublas::row( p, 0 ) = params;
 	for ( unsigned i = 1; i <= ndim; i++ )
 	{
@@ -182,7 +187,7 @@ T downhillSimplexTry( Math::Matrix< T, 0, 0 >& p, Math::Vector< T >& y,
 	{
 		y( ihi ) = ytry;
 		noalias( psum ) += ptry - ublas::row( p, ihi );
-		noalias( ublas::row( p, ihi ) ) = ptry;
+		ublas::row( p, ihi ) = ptry;
 	}
 
 	return ytry;
-- 
2.43.0


From cc01f629807290da17104921085c4f37dc576f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 35/87] fix: Gauss-Newton optimizer does not compile

---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..57bccf8 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From edc9fe7ea4546dffd4e7647cc8e6a323880aeda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 36/87] fix: downhill simplex cannot change parameters that
 start at zero

---
 src/utMath/Optimization/DownhillSimplex.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/DownhillSimplex.h b/src/utMath/Optimization/DownhillSimplex.h
index 544fcf0..e80ca84 100644
--- a/src/utMath/Optimization/DownhillSimplex.h
+++ b/src/utMath/Optimization/DownhillSimplex.h
@@ -70,7 +70,11 @@ typename VT1::value_type downhillSimplex( const P& problem, VT1& params, const V
 	{
 		ublas::matrix_row< Math::Matrix< T, 0, 0 > > subrow( p, i );
 		subrow = params;
-		p( i, i-1 ) *= T( 1.48529 );
+		// a parameter of zero needs an absolute step, otherwise the simplex is degenerate
+		if ( p( i, i-1 ) != T( 0 ) )
+			p( i, i-1 ) *= T( 1.48529 );
+		else
+			p( i, i-1 ) = T( 0.48529 );
 		normalize.evaluate( subrow, subrow );
 	}
 
-- 
2.43.0


From c1d0e96360807f0c3a6b6d090f92e6201e24b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:42 +0000
Subject: [PATCH 37/87] fix: optimizers without iteration limit never terminate
 on exact data

---
 src/utMath/Optimization/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Optimization.h b/src/utMath/Optimization/Optimization.h
index 8258a03..780b845 100644
--- a/src/utMath/Optimization/Optimization.h
+++ b/src/utMath/Optimization/Optimization.h
@@ -72,7 +72,7 @@ public:
 	bool operator()( const std::size_t iterations, const double resPrev, const double resNow ) const
 	{ 
 		return ( m_maxIterations > 0 && iterations >= m_maxIterations ) ||
-			( m_precision != 0.0 && fabs( resPrev - resNow ) < m_precision * resNow );
+			( m_precision != 0.0 && fabs( resPrev - resNow ) <= m_precision * resNow );
 	}
 
 protected:
-- 
2.43.0


From 298c64578f573d0047dc4623339041911e016abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:16 +0000
Subject: [PATCH 38/87] fix: Tukey weight of a tiny error is NaN

---
 src/utMath/Optimization/TukeyWeightFunction.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/TukeyWeightFunction.h b/src/utMath/Optimization/TukeyWeightFunction.h
index 1e1c3ff..0d07186 100644
--- a/src/utMath/Optimization/TukeyWeightFunction.h
+++ b/src/utMath/Optimization/TukeyWeightFunction.h
@@ -65,7 +65,11 @@ public:
 			if ( e != 0 )
 			{
 				if(!(e>c*c))
-					ro=(pow(c,2)/6)*(1-pow((1- e/(c*c)),3));
+					{
+						// 1 - ( 1 - u )^3, written such that it does not vanish for tiny errors
+						const double u = e/(c*c);
+						ro=(c*c/6)*u*(3-u*(3-u));
+					}
 				else
 					ro=(c*c/6);
 				weight = sqrt(ro)/ro;
-- 
2.43.0


From 021d21bbb70f02e92701305a1b1c68201728a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 39/87] fix: derivative of the hand-eye rotation equation wrt.
 the second rotation is wrong

---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..49d5208 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From ff4921defe7ece3083a851744836b58f1063db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 40/87] fix: two derivatives of the 3D-3D pose optimization
 have wrong signs

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From 242f4b64d16f95433d1fd7f87d61abf7b2d03aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 41/87] fix: integrating a rotation velocity always uses the
 small angle approximation

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..55a8e87 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
-- 
2.43.0


From eb0d0cce8d2f1bcf7096a6a4fdb229f59a2011b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 42/87] fix: derivative of the integrated rotation velocity
 lacks a factor of the time step

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index 55a8e87..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 068ef27395d21ea788160fb7bd16b976c77fa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 43/87] fix: derivative of the rotation time update has one
 factor of the time step too many

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..3918329 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,7 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From 48a904d4ccab434076c4d0bf86d6c1bdc79079af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 44/87] fix: derivative of the tool tip distance is NaN if a
 component of the residual is zero

---
 src/utAlgorithm/ToolTip/Optimization.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..808642e 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,10 +179,10 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0;
+			const VType t43 = (t14 < 0 ? -1.0 : 1.0);
+			const VType t44 = (t30 < 0 ? -1.0 : 1.0);
+			const VType t45 = (t39 < 0 ? -1.0 : 1.0);
 			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
 			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
 			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-- 
2.43.0


From 90c586c84d10661e6d2a9c02d973feb005579ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:26 +0000
Subject: [PATCH 45/87] fix: RANSAC draws samples from less data than a sample
 needs

---
 src/utMath/Optimization/Ransac.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..e904b8c 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -137,6 +137,10 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 	// estimate number of parameter list
 	const std::size_t nValues = std::distance( iBegin, iEnd );
 	assert( params.nMinInlier <= nValues );
+
+	// a sample cannot be drawn from fewer values
+	if( nValues < params.setSize )
+		return 0;
 	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
@@ -273,6 +277,10 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 	// estimate number of parameter list
 	const std::size_t nValues = std::distance( iBegin1, iEnd1 );
 	assert( params.nMinInlier <= nValues );
+
+	// a sample cannot be drawn from fewer values
+	if( nValues < params.setSize )
+		return 0;
 	
 	OPT_LOG_DEBUG( "RANSAC with " << nValues << " values , " << params.nMinInlier << " inlier required" );
 	
@@ -406,6 +414,9 @@ std::size_t ransac( Result& result, const std::vector< Param1 >& paramList1, con
 {
 	OPT_LOG_DEBUG( "RANSAC with " << paramList1.size() << " parameters, " << nMinInlier << " inlier required" );
 	
+	if ( paramList1.empty() )
+		return 0;
+
 	// set of inlier
 	std::vector< bool > bInliers( paramList1.size() );
 
-- 
2.43.0


From b5cbde299d51fc7a40038906603678c577d52847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:26 +0000
Subject: [PATCH 46/87] fix: RANSAC reports success without a result when the
 final estimation fails

---
 src/utMath/Optimization/Ransac.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index e904b8c..a31c0c8 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -235,7 +235,11 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 		for ( ; it < itEnd; ++it )
 			list.push_back( *(*it) );
 
-		typename RansacFunctor::Estimator()( result, list.begin(), list.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list.begin(), list.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: no estimation possible from the inliers" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -393,7 +397,11 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 		}
 			
 
-		typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: no estimation possible from the inliers" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
-- 
2.43.0


From 19fddb18264bf10d2569f49cc12e570000764ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:58 +0000
Subject: [PATCH 47/87] fix: random poses do not compile

---
 src/utMath/Random/Pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Random/Pose.h b/src/utMath/Random/Pose.h
index 811025d..f6db577 100644
--- a/src/utMath/Random/Pose.h
+++ b/src/utMath/Random/Pose.h
@@ -104,7 +104,7 @@ struct Pose
 		: public std::unary_function< void, Math::Pose >
 	{
 		protected:
-			Random::Quaternion< double > randRotations;
+			typename Random::Quaternion< double >::Uniform randRotations;
 			const Math::Vector< T, 3 > m_min_range;
 			const Math::Vector< T, 3 > m_max_range;
 			
@@ -127,7 +127,7 @@ struct Pose
 				vec( 0 ) = distribute_uniform< T >( m_min_range( 0 ), m_max_range( 0 ) );
 				vec( 1 ) = distribute_uniform< T >( m_min_range( 1 ), m_max_range( 1 ) );
 				vec( 2 ) = distribute_uniform< T >( m_min_range( 2 ), m_max_range( 2 ) );
-				return Math::Pose( this.randRotations(), vec );
+				return Math::Pose( this->randRotations(), vec );
 			}
 	};
 };
-- 
2.43.0


From 8179ff39127cdf507f51dc9f59fbb51239e92132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:27 +0000
Subject: [PATCH 48/87] fix: covariance of averaged poses is rotated by the
 mean instead of its inverse

---
 src/utMath/Stochastic/Average.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..aa0ef69 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -273,7 +273,7 @@ public:
 	{
 	
 		/*
-		 * Use inverted mean value to transform the additive 7x7
+		 * Use mean value to transform the additive 7x7
 		 * covariance to the 6x6 multiplicative format The conversion is
 		 * conducted according to the following formulas:
 		 * 
@@ -303,16 +303,13 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
 		
 		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		const Math::ErrorPose ep = Math::ErrorPose::fromAdditiveErrorVector( ev );
+		// fromAdditiveErrorVector rotates the distribution by ~q_0
+		return value_type( meanPose, ep.covariance() );
 	};
 	
 };
-- 
2.43.0


From 13bb8fd6706cf652cec58bf912ae2a064a649442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:47 +0000
Subject: [PATCH 49/87] fix: averaging rotations near a half turn mixes both
 hemispheres

---
 src/utMath/Stochastic/Average.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index aa0ef69..5a03d68 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -156,7 +156,10 @@ void Average< Math::Quaternion >::operator() ( const value_type& value )
 	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
-	m_mean += (( value.w() >= 0 ) ? tmp : tmp * (-1) );
+	// the first rotation decides about the hemisphere, all others are brought into the hemisphere of their sum
+	const precision_type side = ( m_counter == 1 ) ? tmp[ 3 ]
+		: m_mean[ 0 ]*tmp[ 0 ] + m_mean[ 1 ]*tmp[ 1 ] + m_mean[ 2 ]*tmp[ 2 ] + m_mean[ 3 ]*tmp[ 3 ];
+	m_mean += (( side >= 0 ) ? tmp : tmp * (-1) );
 };
 
 /// overloaded getAverage function for Quaternion measurements, when new struct is available this should not be necessary anymore.
@@ -175,8 +178,10 @@ void Average< Math::Pose >::operator() ( const value_type& value )
 	mean_type tmp;
 	Util::castToVector( value, tmp );
 	// The order is tx, ty, tz, qx, qy, qz, qw.
-	// check now for real part (==qw) being positive and correct if necessary:
-	if( tmp[ 6 ] < 0 )
+	// the first rotation decides about the hemisphere, all others are brought into the hemisphere of their sum
+	const precision_type side = ( m_counter == 1 ) ? tmp[ 6 ]
+		: m_mean[ 3 ]*tmp[ 3 ] + m_mean[ 4 ]*tmp[ 4 ] + m_mean[ 5 ]*tmp[ 5 ] + m_mean[ 6 ]*tmp[ 6 ];
+	if( side < 0 )
 	{
 		tmp[ 3 ] *= (-1);
 		tmp[ 4 ] *= (-1);
@@ -256,8 +261,10 @@ public:
 		Util::castToVector( value, tmp );
 		
 		// The order is tx, ty, tz, qx, qy, qz, qw.
-		// check now for real part (==qw) being positive and correct if necessary:
-		if( tmp[ 6 ] < 0 )
+		// the first rotation decides about the hemisphere, all others are brought into the hemisphere of their sum
+		const precision_type side = ( m_counter == 0 ) ? tmp[ 6 ]
+			: m_mean[ 3 ]*tmp[ 3 ] + m_mean[ 4 ]*tmp[ 4 ] + m_mean[ 5 ]*tmp[ 5 ] + m_mean[ 6 ]*tmp[ 6 ];
+		if( side < 0 )
 		{
 			tmp[ 3 ] *= (-1);
 			tmp[ 4 ] *= (-1);
-- 
2.43.0


From 5220d592601ddfea008846108913aa4169a2c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 50/87] fix: normal density is scaled by a wrong power of 2 pi

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..33a02eb 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159265358979323846 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From 5e604bab73eb64845170887c489d9bab4fc0a3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 51/87] fix: k-means turns the centroid of an empty cluster
 into NaN

---
 src/utMath/Stochastic/k_means.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..82b5492 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,14 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			// a cluster without any members stays where it is
+			const std::size_t members = std::count ( indices.begin(), indices.end(), k );
+			if( members > 0 )
+				means_temp[ k ] /= members;
+			else
+				means_temp[ k ] = *( itMeanBegin + k );
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 3f0af32c3c819df9acfba06d40748959258d0cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:48 +0000
Subject: [PATCH 52/87] fix: backward covariance propagation used only the
 first measurements, and the transposed eigenvectors for full covariances

---
 src/utMath/Stochastic/BackwardPropagation.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..143ee9c 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -56,8 +56,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
  * @ingroup math
  * Performs backward propagation of covariance.
  * 
- * FIXME: this function doesn't seeem to work correctly. 
- * Use backwardPropagationIdentity, which gives different (and more plausible) results.
  *
  * Given a function y = f(x), known parameters x and a covariance matrix E of y, the backward propagation
  * computes the covariance C of the parameters x. size(E) >= size(C).
@@ -70,8 +68,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
 template< class MT1, class MT2, class F, class VT1 > 
 void backwardPropagation( MT1& result, const MT2& input, const F& function, const VT1& params )
 {
-	// !!!! FIXME: this function doesn't seeem to work.  !!!!!
-	// Use backwardPropagationIdentity, which gives different results
 	
 	namespace lapack = boost::numeric::bindings::lapack;
 	namespace blas = boost::numeric::bindings::blas;
@@ -84,25 +80,25 @@ void backwardPropagation( MT1& result, const MT2& input, const F& function, cons
 	MatType jacobian( input.size1(), result.size1() );
 	function.jacobian( params, jacobian );
 	
-	// factorize E into Q^T * T * Q
+	// factorize E into Q * T * Q^T
 	MatType Q( input );
 	Math::Vector< VType > t( input.size1() );
 	lapack::syev( 'V', 'U', Q, t, lapack::minimal_workspace() );
 	
-	// compute Q * J
+	// compute Q^T * J (the eigenvectors are the columns of Q)
 	MatType QJ( jacobian.size1(), jacobian.size2() );
-	blas::gemm( Q, jacobian, QJ );
+	blas::gemm( 'T', 'N', VType( 1 ), Q, jacobian, VType( 0 ), QJ );
 
     // compute T^(-1/2)	
-	VType precision( t( 0 ) * VType( 1e-8 ) );
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	VType precision( t( t.size() - 1 ) * VType( 1e-8 ) );
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		if ( t( i ) < precision )
 			t( i ) = 0;
 		else
 			t( i ) = 1 / sqrt( t( i ) );
 
-	// compute J' = T^(-1/2) * Q * J
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	// compute J' = T^(-1/2) * Q^T * J
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( QJ, i ) *= t( i );
 
 	// perform SVD on QJ
@@ -235,7 +231,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < jacobian.size1(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 46c95075b3c448fe70c51b413995d48fef150fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:39 +0000
Subject: [PATCH 53/87] fix: iterative 3D-3D refinement stops before the
 optimum because the derivative ignores the normalization

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index a7878d2..7dc32c9 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -181,6 +181,16 @@ public:
 			J( i*3+1, 0 ) = J( i*3+1, 2 ) = 0;
 			J( i*3+2, 0 ) = J( i*3+2, 1 ) = 0;
 			
+			// the quaternion is normalized before it is applied: its length has no influence
+			for( std::size_t k = 0; k < 3; ++k )
+			{
+				const VType radial = J( i*3+k, 3 )*qx + J( i*3+k, 4 )*qy + J( i*3+k, 5 )*qz + J( i*3+k, 6 )*qw;
+				J( i*3+k, 3 ) = ( J( i*3+k, 3 ) - radial*qx ) / n;
+				J( i*3+k, 4 ) = ( J( i*3+k, 4 ) - radial*qy ) / n;
+				J( i*3+k, 5 ) = ( J( i*3+k, 5 ) - radial*qz ) / n;
+				J( i*3+k, 6 ) = ( J( i*3+k, 6 ) - radial*qw ) / n;
+			}
+			
 			// const VType t2 = qy*qy;
 			// const VType t3 = qz*qz;
 			// const VType t4 = qw*qw;
-- 
2.43.0


From 2bebec909248ce8117330e3bdeef33630d31f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:22 +0000
Subject: [PATCH 54/87] fix: translation of a decomposed projection matrix has
 the scale of the matrix

---
 src/utAlgorithm/Projection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..08e8c29 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -199,10 +199,10 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	T f = -1 / k( 2, 2 );
 	k *= f;
 
-	// compute translation vector: t = K^-1 p^4
+	// compute translation vector: t = K^-1 p^4, without the scale of the projection matrix
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
-	t = ublas::column( ttmp, 0 );
+	t = f * ublas::column( ttmp, 0 );
 }
 
 
-- 
2.43.0


From 87edc3668398f0e7d66d82c890cb03b52e8943db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:38 +0000
Subject: [PATCH 55/87] fix: epipolar distance of homogeneous points ignores
 the third coordinate of the second point

---
 src/utAlgorithm/3DPointReconstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/3DPointReconstruction.cpp b/src/utAlgorithm/3DPointReconstruction.cpp
index abaecb3..e9afed7 100644
--- a/src/utAlgorithm/3DPointReconstruction.cpp
+++ b/src/utAlgorithm/3DPointReconstruction.cpp
@@ -52,7 +52,7 @@ T pointToPointDistImp( const Math::Vector< T, 3 > & from, const Math::Vector< T,
 {
 	Math::Vector< T, 3 > from_  = ublas::prod( fM, from );
 
-	T term = from_( 0 ) * to( 0 ) + from_( 1 )* to( 1 ) + from_( 2 );
+	T term = ( from_( 0 ) * to( 0 ) + from_( 1 )* to( 1 ) + from_( 2 ) * to( 2 ) ) / to( 2 );
 	return ( term * term ) / ( from_( 0 ) * from_( 0 ) + from_( 1 )* from_( 1 ) );
 }
 
-- 
2.43.0


From 2a9d028eb015db8222deff51c3374b73c76b840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:05 +0000
Subject: [PATCH 56/87] fix: residual of an algebraically reconstructed point
 is not set

---
 src/utAlgorithm/3DPointReconstruction.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/utAlgorithm/3DPointReconstruction.cpp b/src/utAlgorithm/3DPointReconstruction.cpp
index e9afed7..b005e4e 100644
--- a/src/utAlgorithm/3DPointReconstruction.cpp
+++ b/src/utAlgorithm/3DPointReconstruction.cpp
@@ -220,6 +220,19 @@ Math::Vector< double, 3 > get3DPositionWithResidual( const std::vector< Math::Ma
 	
 	if( flag > 0 )
 		result = optimize3DPositionImpl( P.begin(), P.end(), points.begin(), result, pResidual );
+	else if( pResidual )
+	{
+		// residual of the algebraic solution
+		Function::SinglePointMultiProjection< double, std::vector< Math::Matrix< double, 3, 4 > >::const_iterator > func( P.begin(), P.end() );
+		Math::Vector< double > projected( 2 * P.size() );
+		func.evaluate( projected, result );
+		*pResidual = 0;
+		for( std::size_t i( 0 ); i < P.size(); ++i )
+		{
+			const Math::Vector< double, 2 > diff = ublas::subrange( projected, i*2, (i*2)+2 ) - points[ i ];
+			*pResidual += ublas::inner_prod( diff, diff );
+		}
+	}
 		
 	
 	return result;
-- 
2.43.0


From 029802d0b415955322ffc2f6a31cba54d0827e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:20 +0000
Subject: [PATCH 57/87] fix: vector overloads of the lens distortion size their
 output

---
 src/utAlgorithm/CameraLens/Distortion.h   | 2 ++
 src/utAlgorithm/CameraLens/Undistortion.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/utAlgorithm/CameraLens/Distortion.h b/src/utAlgorithm/CameraLens/Distortion.h
index 8e3448a..3e97739 100644
--- a/src/utAlgorithm/CameraLens/Distortion.h
+++ b/src/utAlgorithm/CameraLens/Distortion.h
@@ -113,6 +113,7 @@ inline void distort( const RadVec& radVec, const TanVec& tanVec, const UndisType
 template< typename T, std::size_t N >
 inline void distort( const Math::Vector< T, 6 >& radVec, const Math::Vector< T, 2 >& tanVec, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
@@ -131,6 +132,7 @@ inline void distort_impl( const Math::CameraIntrinsics< T >& camIntrin,  const M
 template< typename T, std::size_t N >
 inline void distort_impl( const Math::CameraIntrinsics< T > camIntrin, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
diff --git a/src/utAlgorithm/CameraLens/Undistortion.h b/src/utAlgorithm/CameraLens/Undistortion.h
index f58f465..4653010 100644
--- a/src/utAlgorithm/CameraLens/Undistortion.h
+++ b/src/utAlgorithm/CameraLens/Undistortion.h
@@ -226,6 +226,7 @@ void undistort_impl( const Math::CameraIntrinsics< T >& mat, const Math::Vector<
 template< typename T, std::size_t N >
 inline void undistort_impl( const Math::CameraIntrinsics< T > camIntrin, const std::vector< Math::Vector< T, N > >& pointsIn, std::vector< Math::Vector< T, N > >& result )
 {
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
-- 
2.43.0


From 2a65dea23571f0119fc51cc4cc7b0770b2aacdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:51 +0000
Subject: [PATCH 58/87] fix: computePose accounts for the height of a plane of
 constant z

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..e289305 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -421,7 +421,8 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// (the homography maps the points of the plane z=0, therefore shift the points onto it)
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 01589b91eb6a3d1e2ea6b23aa22d7b8e111c76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:51 +0000
Subject: [PATCH 59/87] fix: computePose divides the translation by the scale
 of the projection matrix, not its cube

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index e289305..5c1b5e4 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -377,7 +377,7 @@ Math::ErrorPose computePose(
 		if ( ( s( 0 ) / s( 2 ) ) < 2 )
 		{
 			R = ublas::prod( u, vt );
-			t /= s( 0 ) * s( 1 ) * s( 2 ); // det( original-R )
+			t /= std::pow( s( 0 ) * s( 1 ) * s( 2 ), 1. / 3. ); // scale of original-R, i.e. det( original-R )^(1/3)
 
 			pose = Math::Pose( Math::Quaternion( R ), t );
 			bInitialized = true;
-- 
2.43.0


From 6a243cf05b6fa8a8f725994879a910bc2c957ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:51 +0000
Subject: [PATCH 60/87] fix: computePose refuses collinear points in any order

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index 5c1b5e4..bb81998 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -442,7 +442,7 @@ Math::ErrorPose computePose(
 			vZ /= f;
 
 			// Check whether first three points are colinear
-			double collinearity = inner_prod( vX, vZ ) > 0.8;
+			double collinearity = std::fabs( inner_prod( vX, vZ ) ) > 0.8;
 			OPT_LOG_TRACE( "Checking collinearity constraint (should be lower than 0.8): " << collinearity );
 			if ( collinearity ) {
 				OPT_LOG_TRACE( "Points are collinear" );
-- 
2.43.0


From b41d8d0016354cff965e7c73cf62f3e13d64981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 61/87] fix: hemisphere_alignment negates the axis with the
 complementary angle

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..3fc0324 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -312,7 +312,8 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		if( angle > 3.1415926535897932384626433832795 )
 		{
 			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
-			const T ratio = new_angle/angle;
+			// the complementary angle is a rotation around the opposite axis
+			const T ratio = -new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
 			result[ 2 ] *= ratio;
-- 
2.43.0


From 27faeff824314c543cfac017bde06f26891b40c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 62/87] fix: DataSelection compares every relative pose with
 its cluster centre, not only the first

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 3fc0324..b1a9ca6 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -507,7 +507,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose , ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From edcff71ef2f824b0826f91166fa80a5f65afae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 63/87] fix: select_6DPoses skips clusters without poses

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 2718ad8..0b79f56 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -97,7 +97,7 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 	
 	
 	typename std::vector< pose_type >::iterator itCodebook = means.begin();
-	for( std::size_t i = 0; i<n_cluster; ++i, ++itCodebook )
+	for( std::size_t i = 0; i<means.size(); ++i, ++itCodebook )
 	{
 		T max_dist( 10000 );  // <- important: should be bigger than PI
 		pose_type nearestPoseA;
@@ -122,6 +122,10 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 				}
 			}
 		}
+		// no pose belongs to this cluster
+		if( max_dist == T( 10000 ) )
+			continue;
+
 		*itEye++ = Math::pose_cast< output_type >()( nearestPoseA );
 		*itHand++ = Math::pose_cast< output_type >()( nearestPoseB );
 		// selected_a.push_back( nearestPoseA );
-- 
2.43.0


From f0ad81617ee41ea4dac7822f22789cc8a4d19018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 64/87] fix: HandEyeCalibration replaces the selected poses
 instead of appending to them

---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..e59f680 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -159,7 +159,9 @@ protected:
 		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
 		
 		// std::cerr << "n " << n << "\n";
+		relativePosesBestMatchA.clear();
 		relativePosesBestMatchA.reserve( n );
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
 		m_DataSelection.getSelection( relativePosesAllA, std::back_inserter( relativePosesBestMatchA ) );
-- 
2.43.0


From 1e132f7eb49b5617a53daedc8dc00532db106920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 65/87] fix: dual quaternion hand-eye calibration does not
 depend on the signs of the quaternions

---
 src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..4f29a31 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -88,7 +88,8 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		// the scalar parts have to agree, so choose the sign of the second dual quaternion accordingly
+		const dual_type b = ( a[ 0 ] * (*itBeginHand)[ 0 ] < 0 ) ? dual_type( -(*itBeginHand) ) : dual_type( *itBeginHand );
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
-- 
2.43.0


From 5a24872e4c627cdf5a32e2ae2278a78c1d5a15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:53 +0000
Subject: [PATCH 66/87] fix: RotationHecKalmanFilter matches the signs of the
 scalar parts of its measurements

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..a3443f0 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,8 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// both rotations have the same angle, so the signs of the scalar parts have to agree
+	Function::RotHecMeasurement mf( a, a.w() * b.w() < 0 ? Math::Quaternion( -b ) : b );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From d985cf6ea7c408f446e57992bc1c3e4f7ee59fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:21 +0000
Subject: [PATCH 67/87] fix: dual quaternion hand-eye calibration solves its
 quadratic equation when the leading coefficient vanishes

---
 .../PoseEstimation6D6D/DualQuaternion.cpp     | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 4f29a31..7c7b159 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -47,18 +47,21 @@ namespace Ubitrack{ namespace Math {
 struct SolveQuadratic
 {
 	template< typename T >
-	Math::Vector< T, 2 > operator()( const Math::Vector< T, 3 >& quadratic ) const
+	Math::Vector< T, 4 > operator()( const Math::Vector< T, 3 >& quadratic ) const
 	{
 		// solve ax^2 + bx + c = 0 for x_{1,2}
 		// assume input vector with following order[ c b a ]
+		// a may vanish, such that one of the solutions lies at infinity:
+		// return both as a ratio x1 = [ 0 ]/[ 1 ] and x2 = [ 2 ]/[ 3 ]
 		const T c = quadratic[ 0 ];
 		const T b = quadratic[ 1 ];
-		const T m2a = 2.*quadratic[ 2 ]; // <-- 2a is needed anyway
+		const T a = quadratic[ 2 ];
 		
-		const T root = std::sqrt( (b*b)-(2.*m2a*c) );// <- 2a instead of 4a, see above
-		const T x1 = (-b + root) / m2a;// <- here as well 2a instead of 4a
-		const T x2 = -(b + root) / m2a;
-		return Math::Vector< T, 2 >( x1, x2 );
+		const T root = std::sqrt( (b*b)-(4.*a*c) );
+		const T w = -0.5 * ( b < 0 ? b - root : b + root );
+		const T l1 = std::sqrt( w*w + a*a );
+		const T l2 = std::sqrt( c*c + w*w );
+		return Math::Vector< T, 4 >( w / l1, a / l1, c / l2, w / l2 );
 	}
 };
 
@@ -189,15 +192,16 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	const value_type b = inner_product( u1, v2 ) + inner_product( u2, v1 ); 
 	const value_type c = inner_product( u2, v2 );
 	const Math::Vector< value_type, 3 > quEq( c, b, a );
-	const Math::Vector< value_type, 2 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
+	const Math::Vector< value_type, 4 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
 	
 	const value_type dotU1 = inner_product( u1, u1 );
 	const value_type dotU1U2_2 = inner_product( u1, u2 ) * 2; // <- 2 times inner product
 	const value_type dotU2 = inner_product( u2, u2 );
-	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * dotU1U2_2 + dotU2;
-	const value_type s2 = s12[ 1 ] * s12[ 1 ] * dotU1 + s12[ 1 ] * dotU1U2_2 + dotU2;
-	const value_type lambda2 = (s1 > s2) ? std::sqrt( 1/s1 ) : std::sqrt( 1/s2 );
-	const value_type lambda1 = (s1 > s2) ? lambda2 * s12[ 0 ] : lambda2 * s12[ 1 ];
+	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * s12[ 1 ] * dotU1U2_2 + s12[ 1 ] * s12[ 1 ] * dotU2;
+	const value_type s2 = s12[ 2 ] * s12[ 2 ] * dotU1 + s12[ 2 ] * s12[ 3 ] * dotU1U2_2 + s12[ 3 ] * s12[ 3 ] * dotU2;
+	const value_type scale = (s1 > s2) ? std::sqrt( 1/s1 ) : std::sqrt( 1/s2 );
+	const value_type lambda1 = scale * ( (s1 > s2) ? s12[ 0 ] : s12[ 2 ] );
+	const value_type lambda2 = scale * ( (s1 > s2) ? s12[ 1 ] : s12[ 3 ] );
 	
 	if( (lambda1 != lambda1) || (lambda2 != lambda2) )
 	{
-- 
2.43.0


From 5fcafc9bf9f8837f3ee5f173424a500b4ab6ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 68/87] fix: LinearPoseMotionModel starts without process noise
 instead of uninitialized memory

---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From 1d5ce9e24d6ae8dc5e7ea82ef75c9d9347b0b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 69/87] fix: RotationOnlyKF predicts for times in the past

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From f73c7507156f697534ecb9f76b0a7ebd32e9f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:01 +0000
Subject: [PATCH 70/87] fix: TimestampSyncLS keeps its precision with large
 native clock values and local times before the first

---
 src/utMeasurement/TimestampSyncLS.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utMeasurement/TimestampSyncLS.h b/src/utMeasurement/TimestampSyncLS.h
index 61ec846..f707014 100644
--- a/src/utMeasurement/TimestampSyncLS.h
+++ b/src/utMeasurement/TimestampSyncLS.h
@@ -80,9 +80,15 @@ public:
 	Timestamp convertNativeToLocal( double native, Timestamp local )
 	{
 		if ( m_events == 0 )
+		{
 			m_firstLocal = local;
+			m_firstNative = native;
+		}
 
-		double fLocal = static_cast< double >( local - m_firstLocal );
+		// work relative to the first event: differences of squares of absolute clock values would cancel,
+		// and the difference can be negative
+		double fLocal = static_cast< double >( static_cast< long long >( local - m_firstLocal ) );
+		native -= m_firstNative;
 		double fExtrapolated, deviationSquare, thresholdSquare;
 		double fGain, var;
 		
@@ -135,7 +141,7 @@ public:
 		m_events++;
 
 		// return the input value for the first 10 times
-		return m_firstLocal + static_cast< Timestamp >( fExtrapolated );
+		return m_firstLocal + static_cast< long long >( fExtrapolated );
 	}
 
 	unsigned getEventCount() const
@@ -145,6 +151,7 @@ protected:
 
 	unsigned m_events;
 	Timestamp m_firstLocal;
+	double m_firstNative;
 	
 	// variables for recursive exponentially-weighted least squares
 	double m_avgNative;
-- 
2.43.0


From 4dc7c78dae229656318dad83eb22f1ce0a5accfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 71/87] fix: SerialPort honours the requested data bits and
 parity

---
 src/utUtil/SerialPort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..c16b842 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -300,12 +300,13 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
-	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
 	cfmakeraw( &m_termiosCurrent );
+	// cfmakeraw resets character size and parity
+	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
-- 
2.43.0


From 90b47926d90a4f58bc1af2e7a48b768f7d4fea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 72/87] fix: SerialPort does not leak its descriptor when it
 cannot be configured

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index c16b842..c91426c 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -315,7 +318,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From d1028d8068b5c5a5d1459c6f525089a6e756cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 73/87] fix: SerialPort::send reports write errors instead of a
 huge byte count

---
 src/utUtil/SerialPort.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index c91426c..db25a40 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -364,6 +364,8 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 		UBITRACK_THROW( "Port is not open" );
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error writing bytes" );
 
 	return writtenBytes;
 }
-- 
2.43.0


From d865312d283b9a6bdbb5196a7d0deef0435abcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 74/87] fix: SerialPort::flush and sendBreak refuse a closed
 port instead of using an undefined descriptor

---
 src/utUtil/SerialPort.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index db25a40..bfeb070 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -383,11 +383,15 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From 15af64e11790263929c2f4f4dd728e963f3dc9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:30 +0000
Subject: [PATCH 75/87] fix: SerialPort knows that it is closed: no reuse or
 second close of its descriptor, and it can be reopened

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index bfeb070..375399f 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -339,6 +339,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From efe88ba9e8c625fe4df3fc2bd1b79cb4aa9dec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:37 +0000
Subject: [PATCH 76/87] fix: Exception without a file name is logged completely

---
 src/utUtil/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utUtil/Exception.cpp b/src/utUtil/Exception.cpp
index a14b8d7..e6932b0 100644
--- a/src/utUtil/Exception.cpp
+++ b/src/utUtil/Exception.cpp
@@ -44,7 +44,7 @@ Exception::Exception( const std::string& sMessage, unsigned nLine, const char* s
 	, m_nLine( nLine )
 	, m_sFile( sFile ? sFile : "" )
 {
-	LOG4CPP_DEBUG( logger, "Exception thrown in " << sFile << ":" << nLine << ", message: " << sMessage );
+	LOG4CPP_DEBUG( logger, "Exception thrown in " << m_sFile << ":" << nLine << ", message: " << sMessage );
 }
 
 /* bug fix/workaround for a problem with VS2005 which has problems when the exception class is
-- 
2.43.0


From 3faa9a604d15c78be851420d581677bdf7516ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:15 +0000
Subject: [PATCH 77/87] fix: sleep waits for the whole time when the
 nanoseconds carry into seconds or a signal arrives

---
 src/utUtil/OS.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..59a89ff 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -33,6 +33,7 @@
 #ifdef WIN32
 #include "CleanWindows.h"
 #else
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 #endif
@@ -67,9 +68,13 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
-	nanosleep( &t, NULL );
+	// nanosleep only accepts less than a second of nanoseconds
+	const unsigned long long total = ms * 1000000ULL + ns;
+	t.tv_sec = total / 1000000000;
+	t.tv_nsec = total % 1000000000;
+	// signals must not shorten the sleep
+	while ( nanosleep( &t, &t ) == -1 && errno == EINTR )
+	{}
 }
 
 
-- 
2.43.0


From 9a7f5bbc0d7063c6db5841a779b9b4776553fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:33 +0000
Subject: [PATCH 78/87] fix: BlockTimer without a code location does not log an
 uninitialized line

---
 src/utUtil/BlockTimer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/BlockTimer.h b/src/utUtil/BlockTimer.h
index 844eb6b..778b14c 100644
--- a/src/utUtil/BlockTimer.h
+++ b/src/utUtil/BlockTimer.h
@@ -111,6 +111,7 @@ public:
 	BlockTimer( const std::string& sName, const std::string& sLoggingCategory = std::string() )
 		: m_sName( sName )
 		, m_pLogger( sLoggingCategory.empty() ? 0 : &log4cpp::Category::getInstance( sLoggingCategory ) )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
@@ -125,6 +126,7 @@ public:
 	BlockTimer( const std::string& sName, log4cpp::Category& logger )
 		: m_sName( sName )
 		, m_pLogger( &logger )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
-- 
2.43.0


From b57454f299f7c799cd6c252111ab28b916756ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 79/87] fix: StoreIntermediate names its vector type with the
 template arguments in the right order, so that it compiles

---
 src/utMath/Optimization/NewFunction/StoreIntermediate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/NewFunction/StoreIntermediate.h b/src/utMath/Optimization/NewFunction/StoreIntermediate.h
index 6ec1554..e61beef 100644
--- a/src/utMath/Optimization/NewFunction/StoreIntermediate.h
+++ b/src/utMath/Optimization/NewFunction/StoreIntermediate.h
@@ -48,7 +48,7 @@ public:
 	 * Construct from matrix. 
 	 * Note: matrix reference must be valid throughout the lifetime of the object! 
 	 */
-	StoreIntermediate( Math::Vector< M, T >& _vector )
+	StoreIntermediate( Math::Vector< T, M >& _vector )
 		: rVector( _vector )
 	{}
 
@@ -65,7 +65,7 @@ public:
 		j = l;
 	}
 	
-	mutable Math::Vector< M, T >& rVector;
+	Math::Vector< T, M >& rVector;
 };
 
 }}}} // namespace Ubitrack::Math::Optimization::Function
-- 
2.43.0


From c893ac98c4534af0289fee9a12f1a48b5e550357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:14 +0000
Subject: [PATCH 80/87] fix: VectorNorm.h closes all its namespaces, has an
 include guard and includes what it derives from

---
 src/utMath/Optimization/NewFunction/VectorNorm.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/NewFunction/VectorNorm.h b/src/utMath/Optimization/NewFunction/VectorNorm.h
index cc09cd5..02811a8 100644
--- a/src/utMath/Optimization/NewFunction/VectorNorm.h
+++ b/src/utMath/Optimization/NewFunction/VectorNorm.h
@@ -30,7 +30,11 @@
  * @author Daniel Pustka <daniel.pustka@in.tum.de>
  */
  
+#ifndef __UBITRACK_MATH_FUNCTION_VECTORNORM_H_INCLUDED__
+#define __UBITRACK_MATH_FUNCTION_VECTORNORM_H_INCLUDED__
+
 #include <utMath/Vector.h>
+#include "MultiVariateFunction.h"
 
 namespace Ubitrack { namespace Math { namespace Optimization { namespace Function {
 
@@ -56,4 +60,6 @@ struct VectorNorm
 	}
 };
 
-} } } // namespace Ubitrack::Algorithm::Normalize
+}}}} // namespace Ubitrack::Math::Optimization::Function
+
+#endif
-- 
2.43.0


From 6ba8bcbcb54e8a6af870ece9235ec1e6e8d6c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:25 +0000
Subject: [PATCH 81/87] fix: VectorNorm multiplies its derivative with every
 row of the left-hand side, not only the first

---
 src/utMath/Optimization/NewFunction/VectorNorm.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Optimization/NewFunction/VectorNorm.h b/src/utMath/Optimization/NewFunction/VectorNorm.h
index 02811a8..9499dc4 100644
--- a/src/utMath/Optimization/NewFunction/VectorNorm.h
+++ b/src/utMath/Optimization/NewFunction/VectorNorm.h
@@ -54,9 +54,13 @@ struct VectorNorm
 	template< class LeftHand, class DestinationMatrix, class Param1 >
 	void multiplyJacobian1( const LeftHand& l, DestinationMatrix& j, const Param1& p1 ) const
 	{
-		typename Param1::value_type f = l( 0, 0 ) / boost::numeric::ublas::norm_2( p1 );
-		for ( unsigned i = 0; i < M; i++ )
-			j( 0, i ) = f * p1( i );
+		const typename Param1::value_type norm = boost::numeric::ublas::norm_2( p1 );
+		for ( std::size_t r = 0; r < l.size1(); r++ )
+		{
+			typename Param1::value_type f = l( r, 0 ) / norm;
+			for ( unsigned i = 0; i < M; i++ )
+				j( r, i ) = f * p1( i );
+		}
 	}
 };
 
-- 
2.43.0


From 6d32aa2172b5fbf4d57c075ab51fe3e316279577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:25 +0000
Subject: [PATCH 82/87] fix: the include guard of Subtraction.h defines the
 macro it tests, so that the header can be included twice

---
 src/utMath/Optimization/NewFunction/Subtraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/NewFunction/Subtraction.h b/src/utMath/Optimization/NewFunction/Subtraction.h
index 390aefa..d3173a3 100644
--- a/src/utMath/Optimization/NewFunction/Subtraction.h
+++ b/src/utMath/Optimization/NewFunction/Subtraction.h
@@ -30,7 +30,7 @@
  */
 
 #ifndef __UBITRACK_MATH_FUNCTION_SUBTRACTION_H_INCLUDED__
-#define __UBITRACK_MATH_FUNCTION_SBUTRACTION_H_INCLUDED__
+#define __UBITRACK_MATH_FUNCTION_SUBTRACTION_H_INCLUDED__
  
 #include "MultiVariateFunction.h"
  
-- 
2.43.0


From da7884cc50f9653ebafffd0689473a3e88bbc1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 83/87] fix: the initial pose for several cameras is computed
 with the inverse of the camera pose, as the optimized function expects

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From 70146b5e29d7f04ed6c99e22391eb2f97109e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 84/87] fix: the multiple camera pose estimation refuses an
 empty set of cameras instead of reading past the end

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index c624276..ebe87f2 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -200,6 +200,9 @@ void checkConsistency (
 		UBITRACK_THROW( "2D6D pose estimation requires at least 2 sets of 2d points" );
 	}*/
 
+	if ( numberCameras == 0 )
+		UBITRACK_THROW( "2D6D pose estimation requires at least one camera" );
+
 	if ( points2d.size() != points2dWeights.size() || points2d.size() != camPoses.size() || points2d.size() != camMatrices.size() )
 		UBITRACK_THROW( "All input sets must have the same number of cameras" );
 
-- 
2.43.0


From 16eb9a9cdcd819efa0c544641bc42e3069108661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 85/87] fix: an empty first local bundle is not taken for the
 bundle of all points

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index ebe87f2..ac6ce80 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -243,6 +243,14 @@ void multipleCameraPoseEstimationWithLocalBundles (
 
 		LOG4CPP_DEBUG( logger, "Local bundle " << localBundleIndex <<" has "<<localBundleSize<< " 2d points. Offset in global bundle list: "<<localBundleOffset);
 
+		// an empty bundle has no observations (an end index of -1 would stand for all points)
+		if ( localBundleSize == 0 )
+		{
+			poses.push_back( Math::ErrorPose() );
+			poseWeights.push_back( -1.0 );
+			continue;
+		}
+
 		std::pair < Math::ErrorPose , double > estimate = 
 			multipleCameraEstimatePose (points3d, points2d, points2dWeights, camPoses, camMatrices, minCorrespondences, false,
 			Math::Pose(), localBundleOffset, localBundleOffset + localBundleSizes.at( localBundleIndex ) - 1);
-- 
2.43.0


From 45a5d397f9b86f1288eb4fd7a17775050299631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:02 +0000
Subject: [PATCH 86/87] fix: the bundle adjustment evaluates the projection it
 differentiates and keeps it when the quaternions are normalized

---
 src/utAlgorithm/BundleAdjustment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..3547faa 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -118,7 +118,6 @@ public:
 			const VType ty = input( camIndex + 5 );
 			const VType tz = input( camIndex + 6 );
 			
-			const Math::Pose pose( Math::Quaternion( qx, qy, qz, qw ), Math::Vector< VType, 3 >( tx, ty, tz ) );
 
 			for ( std::size_t iter_p( 0 ); iter_p < n_pts3D; ++iter_p, row_index += 2 )
 			{
@@ -128,10 +127,6 @@ public:
 				const VType y = input( pointIndex + 1 );
 				const VType z = input( pointIndex + 2 );
 				
-				Math::Vector< VType, 3 > pts ( x, y, z );
-				pts = pose * pts;
-				result( row_index + 0 ) = pts( 0 ) / pts( 2 );
-				result( row_index + 1 ) = pts( 1 ) / pts( 2 );
 				
 				const std::size_t jrow0 = row_index;
 				const std::size_t jrow1 = jrow0 + 1;
@@ -187,6 +182,9 @@ public:
 				const VType t52 = t49*z;
 				const VType t50 = t46+t48-t52+ty;
 				const VType t51 = t28*t37;
+				// t22, t50 and t15 are the coordinates of the transformed point, also if the quaternion is not normalized
+				result( row_index + 0 ) = t22*t28;
+				result( row_index + 1 ) = t50*t28;
 				J( jrow0, camIndex + 0 ) = t32/(t8+t13+tz-x*(t6-qx*qz*2))-t22*t24*t27;
 				J( jrow0, camIndex + 1 ) = t42+t22*t24*t37;
 				J( jrow0, camIndex + 2 ) = -t27*t28-t22*t24*t32;
@@ -319,8 +317,10 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
+		// the optimized quaternion scales the points by its squared norm, normalizing it has to scale the translation as well
+		const value_type scale = value_type( 1 ) / boost::numeric::ublas::inner_prod( boost::numeric::ublas::subrange( paramVector, index, index+4 ), boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
 		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) * scale );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From c935d91cdd5f017eff3c8c96f434c3bc87db89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 87/87] fix: pose of points in a plane whose origin is behind
 the camera came out mirrored

---
 .../PoseEstimation2D3D/PlanarPoseEstimation.cpp            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index bb81998..156018d 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -406,7 +406,7 @@ Math::ErrorPose computePose(
 		for ( std::size_t i( 0 ); i < n_points; ++i )
 		{
 			if( p3d[ i ]( 2 ) == last_dim )
-				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ), p3d[ i ]( 1 ) ) );
+				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ) - p3d[ 0 ]( 0 ), p3d[ i ]( 1 ) - p3d[ 0 ]( 1 ) ) );
 			else
 				break;
 		}
@@ -421,8 +421,9 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			// (the homography maps the points of the plane z=0, therefore shift the points onto it)
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
+			// (the homography maps the points of the plane z=0 relative to the first point, which is in front
+			// of the camera; the origin need not be)
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), -p3d[ 0 ] );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0

