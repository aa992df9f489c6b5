From be71f3eb554b241b2cd3ae79208c383b42426e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 001/105] fix: quaternion from the matrix of a half turn

---
 src/utMath/Quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..0f5d542 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,8 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	// near half turns T vanishes and the differences below are only rounding errors
+	if (T > 1e-4) {
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From b4c55f9f21da0ba08f90b9249ecc0f7654159694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 002/105] fix: sign of the first Euler angle at the south pole
 singularity

---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 0f5d542..d5246ab 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -189,7 +189,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	// Singularity at south pole
 	if ( beta < -0.998 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From 52cca9508ef3a966f663e5b5c190a35b9a7d4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:32 +0000
Subject: [PATCH 003/105] fix: angle and axis of rotations close to the
 identity are not NaN

---
 src/utMath/Quaternion.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..78efda4 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -177,7 +177,11 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{
+			// rounding may leave |w| slightly above one
+			const double absW = w() > 0 ? w() : -w();
+			return absW < 1.0 ? 2 * acos( absW ) : 0.0;
+		}
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -322,16 +326,16 @@ void Quaternion::toMatrix( M& matrix ) const
 template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
-	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// quaternion is assumed to be normalised, but rounding may leave |w| slightly above one
+	angle = 2 * acos( a > 1.0 ? 1.0 : ( a < -1.0 ? -1.0 : a ) );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( b*b + c*c + d*d );
 	// test to avoid divide by zero, s is always positive due to sqrt
-	if (s < 0.001) { 
-		// if s close to zero then direction of axis not important
-		axis( 0 ) = b; // if it is important that axis is normalised then replace with x=1; y=z=0;
-		axis( 1 ) = c;
-		axis( 2 ) = d;
+	if (s < 1e-12) { 
+		// no rotation: direction of axis not important, but it must have one
+		axis( 0 ) = 1;
+		axis( 1 ) = 0;
+		axis( 2 ) = 0;
 	} else {
 		axis( 0 ) = b / s; // normalise axis
 		axis( 1 ) = c / s;
-- 
2.43.0


From 535a93fbd2f0d351e1eb994a7b975c83beb152c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:10 +0000
Subject: [PATCH 004/105] fix: rotation casts of the identity and of half turns

---
 src/utMath/Util/RotationCast.h | 66 ++++++++++++++++------------------
 1 file changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..fec034f 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,10 +104,30 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
-		return return_type( qx, qy, qz, qw );
+		// the signs are taken relative to the largest component, the differences vanish for half turns
+		const T wx = matrix( 2, 1 ) - matrix( 1, 2 );
+		const T wy = matrix( 0, 2 ) - matrix( 2, 0 );
+		const T wz = matrix( 1, 0 ) - matrix( 0, 1 );
+		const T xy = matrix( 0, 1 ) + matrix( 1, 0 );
+		const T xz = matrix( 0, 2 ) + matrix( 2, 0 );
+		const T yz = matrix( 1, 2 ) + matrix( 2, 1 );
+		T sx = wx, sy = wy, sz = wz;
+		if( qxt > qw && qxt >= qyt && qxt >= qzt )
+		{
+			const T s = wx < 0 ? -1 : 1;
+			sx = s; sy = s*xy; sz = s*xz;
+		}
+		else if( qyt > qw && qyt >= qzt )
+		{
+			const T s = wy < 0 ? -1 : 1;
+			sx = s*xy; sy = s; sz = s*yz;
+		}
+		else if( qzt > qw )
+		{
+			const T s = wz < 0 ? -1 : 1;
+			sx = s*xz; sy = s*yz; sz = s;
+		}
+		return return_type( sx < 0 ? -qxt : qxt, sy < 0 ? -qyt : qyt, sz < 0 ? -qzt : qzt, qw );
 	}
 	
 	template< typename T >
@@ -165,8 +185,10 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const T divisor = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		if( divisor < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+		const T angle = 2 * std::atan2( divisor, static_cast< T >( quat.w() ) );
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
@@ -186,40 +208,14 @@ struct RotationCast< Math::Vector< T, 4 > >
 	}
 	
 	
-	// commented out since it does not work as is: see tests please
 	template< typename ValType, std::size_t M, std::size_t N >
 	return_type operator()( const Matrix< ValType, M, N > & matrix ) const
 	{
 		UBITRACK_STATIC_ASSERT( ( ( M == 3 || M == 4 ) && ( N == 3 || N == 4 ) ), NO_MATCHING_MATRIX_REPRESENTATION_FOR_ROTATION );
 		
-		//easy way here
-		// const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
-		// return RotationCast< return_type >()( quat );
-		
-		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
-		if ( angle != angle || angle < 1e-10 )
-			return return_type( 0, 0, 0, 0 );
-		
-		//std::cout << "Angle " << angle ;
-		const T m2112 = matrix( 2, 1 ) - matrix( 1, 2 );
-		const T m0220 = matrix( 0, 2 ) - matrix( 2, 0 );
-		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
-		
-		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		//std::cout << " Divisor " << divisor << "\n";
-		const T rx = m2112 / divisor;
-		const T ry = m0220 / divisor;
-		const T rz = m1001 / divisor;
-		return return_type( rx, ry, rz, angle );
-		
-		// alternative way:
-		// const T divisor = 2*std::sin( angle ) ;//sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		// //std::cout << " Divisor " << divisor << "\n";
-		// const T rx = m2112 / divisor;
-		// const T ry = m0220 / divisor;
-		// const T rz = m1001 / divisor;
-		// return return_type( rx, ry, rz, angle );
+		// the antisymmetric part of the matrix vanishes for half turns, the quaternion does not
+		const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
+		return RotationCast< return_type >()( quat );
 	}
 };
 
-- 
2.43.0


From c96b2924137bafc638725c88a2b72dd5e1511413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:34 +0000
Subject: [PATCH 005/105] fix: log stream manipulators on disabled or empty
 streams

---
 3rd/log4cpp/src/CategoryStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/CategoryStream.cpp b/3rd/log4cpp/src/CategoryStream.cpp
index a01f9ab..11925d2 100644
--- a/3rd/log4cpp/src/CategoryStream.cpp
+++ b/3rd/log4cpp/src/CategoryStream.cpp
@@ -48,19 +48,19 @@ namespace log4cpp {
                 }
             }
         }
-        return _buffer->width(wide); 
+        return _buffer ? _buffer->width(wide) : 0; 
     }
     CategoryStream& CategoryStream::operator<< (cspf pf) {
 		return (*pf)(*this);
     }
     CategoryStream& eol (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
 			os.flush();
         }
         return os;
     }
     CategoryStream& left (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
             os._buffer->setf(std::ios::left);
         }
         return os;
-- 
2.43.0


From ebbaf47b26c56778758cfe74504b372db09b0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:00 +0000
Subject: [PATCH 006/105] fix: a destroyed fixed-context category stays in its
 parent's list of children

---
 3rd/log4cpp/include/log4cpp/Category.hh  | 6 ++++++
 3rd/log4cpp/src/Category.cpp             | 9 +++++++++
 3rd/log4cpp/src/FixedContextCategory.cpp | 1 +
 3 files changed, 16 insertions(+)

diff --git a/3rd/log4cpp/include/log4cpp/Category.hh b/3rd/log4cpp/include/log4cpp/Category.hh
index 1c60a00..cff2c94 100644
--- a/3rd/log4cpp/include/log4cpp/Category.hh
+++ b/3rd/log4cpp/include/log4cpp/Category.hh
@@ -678,6 +678,12 @@ namespace log4cpp {
 		 */
 		void _addChild(Category* child) throw();
 
+		/**
+		 * Remove this category from its parent's list of children. To be called by categories
+		 * which are destroyed before their parent.
+		 */
+		void _detachFromParent() throw();
+
 		/**
 		 * Propagate a change in the parent priority.
 		 */
diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index bdf9d56..16332f5 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -13,6 +13,7 @@
 #    include <unistd.h>
 #endif
 
+#include <algorithm>
 #include <log4cpp/Category.hh>
 #include <log4cpp/HierarchyMaintainer.hh>
 #include <log4cpp/NDC.hh>
@@ -249,6 +250,14 @@ namespace log4cpp {
 		threading::ScopedLock lock(_childrenListMutex);
 		_children.push_back(child);
 	}
+
+	void Category::_detachFromParent() throw() {
+		if (_parent != NULL) {
+			threading::ScopedLock lock(_parent->_childrenListMutex);
+			ChildrenList& siblings = _parent->_children;
+			siblings.erase(std::remove(siblings.begin(), siblings.end(), this), siblings.end());
+		}
+	}
 	
     void Category::_logUnconditionally(Priority::Value priority, 
                                        const char* format, 
diff --git a/3rd/log4cpp/src/FixedContextCategory.cpp b/3rd/log4cpp/src/FixedContextCategory.cpp
index f447150..7ba01d1 100644
--- a/3rd/log4cpp/src/FixedContextCategory.cpp
+++ b/3rd/log4cpp/src/FixedContextCategory.cpp
@@ -20,6 +20,7 @@ namespace log4cpp {
     }
 
     FixedContextCategory::~FixedContextCategory() {
+        _detachFromParent();
     }
 
     void FixedContextCategory::setContext(const std::string& context) {
-- 
2.43.0


From b5c34db2f35a5a8a8ac019180d33b63e29e257c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:32 +0000
Subject: [PATCH 007/105] fix: a fixed-context category ignores the level set
 on the category it stands for

---
 3rd/log4cpp/src/FixedContextCategory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/FixedContextCategory.cpp b/3rd/log4cpp/src/FixedContextCategory.cpp
index 7ba01d1..7f32ca3 100644
--- a/3rd/log4cpp/src/FixedContextCategory.cpp
+++ b/3rd/log4cpp/src/FixedContextCategory.cpp
@@ -14,7 +14,7 @@ namespace log4cpp {
 
     FixedContextCategory::FixedContextCategory(const std::string& name,
                                                const std::string& context) : 
-        Category(name, Category::getInstance(name).getParent()),
+        Category(name, &Category::getInstance(name)),
         _delegate(Category::getInstance(name)),
         _context(context) {
     }
-- 
2.43.0


From 5127b68f5c147832b25fdb36da305437c6a663dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 008/105] fix: Category::getAppender(name) returns appenders of
 other categories

---
 3rd/log4cpp/src/Category.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index 16332f5..6bc6c73 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -136,14 +136,14 @@ namespace log4cpp {
     Appender* Category::getAppender(const std::string& name) const {
         threading::ScopedLock lock(_appenderSetMutex);
         {
-            AppenderSet::const_iterator i = _appender.begin();
-            if (_appender.end() != i) {
-                // found
-                return((*i)->getAppender(name));
-            }
-            else {
-                return(NULL);
+            for (AppenderSet::const_iterator i = _appender.begin();
+                 i != _appender.end(); i++) {
+                if ((*i)->getName() == name) {
+                    // found
+                    return *i;
+                }
             }
+            return NULL;
         }
     }
 
-- 
2.43.0


From c8f7ad2f09cd880e799a5d58a75b62df236896db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 009/105] fix: destroying an appender forgets a newer appender
 of the same name

---
 3rd/log4cpp/src/Appender.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Appender.cpp b/3rd/log4cpp/src/Appender.cpp
index 3f488a3..5c49259 100644
--- a/3rd/log4cpp/src/Appender.cpp
+++ b/3rd/log4cpp/src/Appender.cpp
@@ -37,7 +37,10 @@ namespace log4cpp {
 
     void Appender::_removeAppender(Appender* appender) {
         threading::ScopedLock lock(_appenderMapMutex);
-        _getAllAppenders().erase(appender->getName());
+        AppenderMap& allAppenders = _getAllAppenders();
+        AppenderMap::iterator i = allAppenders.find(appender->getName());
+        if ((allAppenders.end() != i) && ((*i).second == appender))
+            allAppenders.erase(i);
     }
     
     bool Appender::reopenAll() {
-- 
2.43.0


From bdeadcc3ebbacf3800c8750de1a6355b31c3cc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 010/105] fix: Appender::reopenAll skips the appenders after
 one that fails

---
 3rd/log4cpp/src/Appender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Appender.cpp b/3rd/log4cpp/src/Appender.cpp
index 5c49259..e2e739c 100644
--- a/3rd/log4cpp/src/Appender.cpp
+++ b/3rd/log4cpp/src/Appender.cpp
@@ -48,7 +48,7 @@ namespace log4cpp {
         bool result = true;
         AppenderMap& allAppenders = _getAllAppenders();
         for(AppenderMap::iterator i = allAppenders.begin(); i != allAppenders.end(); i++) {
-            result = result && ((*i).second)->reopen();
+            result = ((*i).second)->reopen() && result;
         }
         
         return result;
-- 
2.43.0


From ba5445995a1101a75a6ad80ddc16b9007178942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:16 +0000
Subject: [PATCH 011/105] fix: NDC::pop on an empty context

---
 3rd/log4cpp/src/NDC.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/3rd/log4cpp/src/NDC.cpp b/3rd/log4cpp/src/NDC.cpp
index 9d1a35c..6cffc1f 100644
--- a/3rd/log4cpp/src/NDC.cpp
+++ b/3rd/log4cpp/src/NDC.cpp
@@ -100,6 +100,9 @@ namespace log4cpp {
     }
 
     std::string NDC::_pop() {
+        if (_stack.empty())
+            return "";
+
         std::string result = _stack.back().message;
         _stack.pop_back();
         return result;
-- 
2.43.0


From 10dd9ccacd24f9593edd6fb6155451c01c3936e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 012/105] fix: category precision of zero and of names with a
 leading dot in PatternLayout

---
 3rd/log4cpp/src/PatternLayout.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 8f5db7f..2ef7d5f 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -74,11 +74,15 @@ namespace log4cpp {
         }
 
         virtual void append(std::ostringstream& out, const LoggingEvent& event) {
-            if (_precision == -1) {
+            if (_precision <= 0) {
                 out << event.categoryName;
             } else {
                 std::string::size_type begin = std::string::npos;
                 for(int i = 0; i < _precision; i++) {
+                    if (begin < 2) {
+                        begin = 0;
+                        break;
+                    }
                     begin = event.categoryName.rfind('.', begin - 2);
                     if (begin == std::string::npos) {
                         begin = 0;
-- 
2.43.0


From a1bed5bbb31a3f8eccf49e52e2b4fcb34a0ca3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 013/105] fix: dates of 100 or more characters in PatternLayout

---
 3rd/log4cpp/src/PatternLayout.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 2ef7d5f..d380f46 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -23,6 +23,7 @@
 #include <ctime>
 #include <cmath>
 #include <algorithm>
+#include <vector>
 
 #ifdef LOG4CPP_HAVE_INT64_T
 #ifdef LOG4CPP_HAVE_STDINT_H
@@ -179,7 +180,6 @@ namespace log4cpp {
             struct tm *currentTime;
             time_t t = event.timeStamp.getSeconds();
             currentTime = std::localtime(&t);
-            char formatted[100];
             std::string timeFormat;
             if (_printMillis) {
                 std::ostringstream formatStream;
@@ -191,8 +191,14 @@ namespace log4cpp {
             } else {
                 timeFormat = _timeFormat1;
             }
-            std::strftime(formatted, sizeof(formatted), timeFormat.c_str(), currentTime);
-            out << formatted;
+            // the additional character makes sure that the result is never empty
+            timeFormat += ' ';
+            std::vector<char> formatted(100);
+            size_t length;
+            while ((length = std::strftime(&formatted[0], formatted.size(), timeFormat.c_str(), currentTime)) == 0) {
+                formatted.resize(2 * formatted.size());
+            }
+            out << std::string(&formatted[0], length - 1);
         }
 
         private:
-- 
2.43.0


From 414e8b6ad30a477c6999b510806b717efcf5979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 014/105] fix: modifiers of a literal conversion apply to the
 next conversion in PatternLayout

---
 3rd/log4cpp/src/PatternLayout.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index d380f46..cef4c21 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -319,6 +319,8 @@ namespace log4cpp {
         clearConversionPattern();
         while (conversionStream.get(ch)) {
             if (ch == '%') {
+                minWidth = 0;
+                maxWidth = 0;
                 // readPrefix;
                 {
                     char ch2;
-- 
2.43.0


From b9cc95debfed7dbb738a1bb315b687c0126a7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 015/105] fix: the empty string is accepted as the name of the
 highest priority

---
 3rd/log4cpp/src/Priority.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Priority.cpp b/3rd/log4cpp/src/Priority.cpp
index a3f6d59..91ffcbc 100644
--- a/3rd/log4cpp/src/Priority.cpp
+++ b/3rd/log4cpp/src/Priority.cpp
@@ -45,7 +45,7 @@ namespace log4cpp {
 
 		char* endPointer;
 		Priority::Value value = std::strtoul(priorityName.c_str(), &endPointer, 10);
-		if (*endPointer != 0) {
+		if (priorityName.empty() || *endPointer != 0) {
 			throw std::invalid_argument(
 				std::string("unknown priority name: '") + priorityName + "'"
 			);
-- 
2.43.0


From 67d76206ab7f3a7f8102198d5c3891f9cff043d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 016/105] fix: formatted log messages of 1024 or more
 characters

---
 3rd/log4cpp/src/StringUtil.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/StringUtil.cpp b/3rd/log4cpp/src/StringUtil.cpp
index e30890a..d7aed05 100644
--- a/3rd/log4cpp/src/StringUtil.cpp
+++ b/3rd/log4cpp/src/StringUtil.cpp
@@ -39,7 +39,11 @@ namespace log4cpp {
 	char* buffer = new char[size];
             
 	while (1) {
-	    int n = VSNPRINTF(buffer, size, format, args);
+	    // every pass needs arguments of its own
+	    va_list argsCopy;
+	    va_copy(argsCopy, args);
+	    int n = VSNPRINTF(buffer, size, format, argsCopy);
+	    va_end(argsCopy);
                 
 	    // If that worked, return a string.
 	    if ((n > -1) && (static_cast<size_t>(n) < size)) {
-- 
2.43.0


From 614f96567e18c03fbc54277ed50ff2b30965d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:50 +0000
Subject: [PATCH 017/105] fix: file appenders lose the rest of a line after a
 short or interrupted write

---
 3rd/log4cpp/src/FileAppender.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/FileAppender.cpp b/3rd/log4cpp/src/FileAppender.cpp
index 7c8a67b..079dbad 100644
--- a/3rd/log4cpp/src/FileAppender.cpp
+++ b/3rd/log4cpp/src/FileAppender.cpp
@@ -15,6 +15,7 @@
 #    include <unistd.h>
 #endif
 
+#include <errno.h>
 #include <stdio.h>
 #include <time.h>
 #include <log4cpp/FileAppender.hh>
@@ -76,8 +77,17 @@ namespace log4cpp {
 
     void FileAppender::_append(const LoggingEvent& event) {
         std::string message(_getLayout().format(event));
-        if (!::write(_fd, message.data(), message.length())) {
-            // XXX help! help!
+        const char* data = message.data();
+        size_t left = message.length();
+        while (left > 0) {
+            int written = ::write(_fd, data, left);
+            if (written > 0) {
+                data += written;
+                left -= written;
+            } else if (!(written < 0 && errno == EINTR)) {
+                // XXX help! help!
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 3563d990f1215b92d70d6d3a6f7534432f7ede1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 018/105] fix: a root category without a level in a property
 file terminates the process

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 90d0815..dcd5d53 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -162,7 +162,12 @@ namespace log4cpp {
             }
         }
 
-        category.setPriority(priority);
+        try {
+            category.setPriority(priority);
+        } catch(std::invalid_argument& e) {
+            throw ConfigureFailure(std::string(e.what()) + 
+                " for category '" + categoryName + "'");
+        }
 
         bool additive = _properties.getBool("additivity." + categoryName, true);
         category.setAdditivity(additive);
-- 
2.43.0


From 4c69b0aa3f1f91f6f309be96b371ae56548c6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:51 +0000
Subject: [PATCH 019/105] fix: a line of 256 or more characters ends a property
 file

---
 3rd/log4cpp/src/Properties.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/Properties.cpp b/3rd/log4cpp/src/Properties.cpp
index e27c2cb..581f8e0 100644
--- a/3rd/log4cpp/src/Properties.cpp
+++ b/3rd/log4cpp/src/Properties.cpp
@@ -23,11 +23,9 @@ namespace log4cpp {
 
         std::string fullLine, command;
         std::string leftSide, rightSide;
-        char line[256];
         std::string::size_type length;
 
-        while (in.getline(line, 256)) {
-            fullLine = line;
+        while (std::getline(in, fullLine)) {
 
             /* if the line contains a # then it is a comment
                if we find it anywhere other than the beginning, then we assume 
-- 
2.43.0


From 2d9e74effe27fcb2ccad6f0d1941ff584cd91234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:22 +0000
Subject: [PATCH 020/105] fix: property files with appenders whose names differ
 by a suffix such as -x are refused

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index dcd5d53..da223d5 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -113,8 +113,8 @@ namespace log4cpp {
                skipping of the Appenders properties only to get them 
                again in instantiateAppender.
             */
-            if (appenderName == currentAppender) {
-                // simply skip properties for the current appender
+            if (_allAppenders.find(appenderName) != _allAppenders.end()) {
+                // simply skip properties for appenders that are already there
             } else {
                 if (i2 == iEnd) {
                     // a new appender
-- 
2.43.0


From f55cf608eb7e54417803f565721499c34f5f8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:41 +0000
Subject: [PATCH 021/105] fix: XML text without its end tag is read beyond the
 end of the input

---
 3rd/tinyxml/tinyxmlparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 9c91b4f..4913599 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -631,9 +631,9 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
-	return p;
+	return ( p && *p ) ? p : 0;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From a79270bdeca45141575affdd1002edbc03bc8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 022/105] fix: an unterminated XML comment is read beyond the
 end of the input

---
 3rd/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 4913599..9ee4720 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1379,7 +1379,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		value.append( p, 1 );
 		++p;
 	}
-	if ( p ) 
+	if ( p && *p ) 
 		p += strlen( endTag );
 
 	return p;
-- 
2.43.0


From 8f6e4ae95d26a6c6aedd66996c0a6b122349c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 023/105] fix: an incomplete UTF-8 character at the end of XML
 input hangs the parser

---
 3rd/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 9ee4720..992076a 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// An incomplete character at the end of the input.
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 9b52b4e0e9233ee4ea0274467fa0cf79e4035622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 024/105] fix: a truncated UTF-8 character in XML input is read
 beyond the end of the input

---
 3rd/tinyxml/tinyxml.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.h b/3rd/tinyxml/tinyxml.h
index c6f40cc..0dce11d 100644
--- a/3rd/tinyxml/tinyxml.h
+++ b/3rd/tinyxml/tinyxml.h
@@ -349,10 +349,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i;
+			for( i=0; p[i] && i<*length; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// shorter if the input ends within the character
+			return p + i;
 		}
 		else
 		{
-- 
2.43.0


From 8fbcb5a6d5103d14e2bcf3dd1ccdee99dd0213ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 025/105] fix: an XML element with a duplicate attribute
 silently ends the document

---
 3rd/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 992076a..b8a137f 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1168,7 +1168,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			#endif
 			if ( node )
 			{
-				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From 5083fcaef2cdacbf9018b30f89f50042d4bc354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:29 +0000
Subject: [PATCH 026/105] fix: a null character in XML text read from a stream
 hangs the parser

---
 3rd/tinyxml/tinyxmlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index b8a137f..c91a0ef 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -961,6 +961,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
 				TiXmlText text( "" );
 				text.StreamIn( in, tag );
 
+				// The text has no document to report an embedded null to.
+				if ( in->good() && in->peek() == 0 )
+				{
+					TiXmlDocument* document = GetDocument();
+					if ( document )
+						document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+					return;
+				}
+
 				// What follows text is a closing tag or another node.
 				// Go around again and figure it out.
 				continue;
-- 
2.43.0


From 8d365636cb7fadc68855e880002f0a1f97e2a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:02 +0000
Subject: [PATCH 027/105] fix: TiXmlNode::ReplaceChild accepts a document as a
 child

---
 3rd/tinyxml/tinyxml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 5de21f6..356d374 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -292,6 +292,12 @@ TiXmlNode* TiXmlNode::ReplaceChild( TiXmlNode* replaceThis, const TiXmlNode& wit
 	if ( replaceThis->parent != this )
 		return 0;
 
+	if ( withThis.Type() == TiXmlNode::DOCUMENT )
+	{
+		if ( GetDocument() ) GetDocument()->SetError( TIXML_ERROR_DOCUMENT_TOP_ONLY, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return 0;
+	}
+
 	TiXmlNode* node = withThis.Clone();
 	if ( !node )
 		return 0;
-- 
2.43.0


From 1e3a092d6322334407d56f2185ee64fe7d3825f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:05 +0000
Subject: [PATCH 028/105] fix: TimestampSyncLS goes wildly wrong when a local
 time precedes the first one

---
 src/utMeasurement/TimestampSyncLS.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMeasurement/TimestampSyncLS.h b/src/utMeasurement/TimestampSyncLS.h
index 61ec846..aedc1ec 100644
--- a/src/utMeasurement/TimestampSyncLS.h
+++ b/src/utMeasurement/TimestampSyncLS.h
@@ -82,7 +82,7 @@ public:
 		if ( m_events == 0 )
 			m_firstLocal = local;
 
-		double fLocal = static_cast< double >( local - m_firstLocal );
+		double fLocal = static_cast< double >( static_cast< long long >( local - m_firstLocal ) );
 		double fExtrapolated, deviationSquare, thresholdSquare;
 		double fGain, var;
 		
@@ -135,7 +135,7 @@ public:
 		m_events++;
 
 		// return the input value for the first 10 times
-		return m_firstLocal + static_cast< Timestamp >( fExtrapolated );
+		return m_firstLocal + static_cast< long long >( fExtrapolated );
 	}
 
 	unsigned getEventCount() const
-- 
2.43.0


From b6faf552201884ec132b76cc1044efba88f92aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:59 +0000
Subject: [PATCH 029/105] fix: converting a MessagePack object to a measurement
 reads the payload from the time stamp

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..2b22f72 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From 2e037d0ab646924e3b3b72cca214ea6fdc6ed30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:52 +0000
Subject: [PATCH 030/105] fix: reading an archive into a measurement without
 payload dereferences a null pointer

---
 src/utMeasurement/Measurement.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index 4a0e7fa..e30127a 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -248,6 +248,9 @@ class Measurement
 		void serialize( Archive& ar, const unsigned int version )
 		{
 			ar & m_timestamp;
+			// a measurement without payload needs one to read into
+			if ( this->get() == 0 )
+				this->reset( new Type() );
 			ar & ( *(this->get()) );
 		}
 };
-- 
2.43.0


From 4825a03b438f0b728d2a2d8c1f59ecb4fb19d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:57 +0000
Subject: [PATCH 031/105] fix: MessagePack reads and builds rectangular
 matrices with the wrong row stride

---
 src/utSerialization/MsgpackSerializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2b22f72..63969eb 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +402,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 40bfc3030d170f23a8c557101be16657f8a2e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:57 +0000
Subject: [PATCH 032/105] fix: MessagePack object of a vector only ever sets
 its first element

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 63969eb..47cd0fe 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From e8cc7afb62f0fad46143c690b293c3da7ec0c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:57 +0000
Subject: [PATCH 033/105] fix: MessagePack reads a dynamic vector beyond the
 size of its target

---
 src/utSerialization/MsgpackSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 47cd0fe..0012bcf 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -270,6 +270,8 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       std::size_t num_elements = o.via.array.size;
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
+      } else {
+          v.resize(num_elements);
       }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
-- 
2.43.0


From 90ad40b4e28c50c9116dc1f9bdfd8dbc0757bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 034/105] fix: camera intrinsics with three radial coefficients
 claim to have two and lose the third when written

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From 850feebe2050e9cfbc6a381f89ef76cbe99a095e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 035/105] fix: reading camera intrinsics without distortion
 keeps the previous calibration type

---
 src/utMath/CameraIntrinsics.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..3ec3607 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -230,6 +230,9 @@ public:
 			case 6 : // wide-angle parameters
 				calib_type = OPENCV_6_2;
 				break;
+			default:
+				calib_type = UNKNOWN;
+				break;
 		}
 	}
 	
-- 
2.43.0


From e0fe296147759f241f644af81a1aabac6b808beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:12 +0000
Subject: [PATCH 036/105] fix: SimpleStringIArchive does not read the item
 version its counterpart writes for a list

---
 src/utUtil/SimpleStringIArchive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SimpleStringIArchive.h b/src/utUtil/SimpleStringIArchive.h
index 3ca5f07..0ca0ab6 100644
--- a/src/utUtil/SimpleStringIArchive.h
+++ b/src/utUtil/SimpleStringIArchive.h
@@ -144,8 +144,9 @@ public:
 	// required for boost::serialization
     typedef boost::mpl::bool_<true> is_loading;
     typedef boost::mpl::bool_<false> is_saving;
+	// (versions after 3 store an item version with each collection, as SimpleStringOArchive does)
 	unsigned int get_library_version() const 
-	{ return 0; }
+	{ return BOOST_VERSION >= 104400 ? 4 : 0; }
 	void reset_object_address( void*, void* )
 	{}	
 };
-- 
2.43.0


From 3338c0d15cbf72edb666ddbfe85eda3109e01ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:09 +0000
Subject: [PATCH 037/105] fix: reading truncated MessagePack data silently
 leaves the target unchanged

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 0012bcf..5d817e3 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -75,7 +75,7 @@ struct MsgpackSerializationFormat {
           msgpack::object obj = oh.get();
           obj.convert<T>(t);
       } else {
-          // throw ??
+          throw msgpack::insufficient_bytes("no complete object available");
       }
   }
 
-- 
2.43.0


From 34d5a0ea27de57a9801e7f5ffd70062f1d7e4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:09 +0000
Subject: [PATCH 038/105] fix: reading camera intrinsics with an impossible
 coefficient count overruns the coefficients

---
 src/utMath/CameraIntrinsics.h           | 3 +++
 src/utSerialization/MsgpackSerializer.h | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 3ec3607..d0af903 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -43,6 +43,7 @@
 //Ubitrack
 #include <utMath/Vector.h>
 #include <utMath/Matrix.h>
+#include <utUtil/Exception.h>
 
 namespace Ubitrack { namespace Math {
 
@@ -289,6 +290,8 @@ protected:
 		ar & dimension( 0 );
 		ar & dimension( 1 );		
 		ar & radial_size;
+		if ( radial_size > 6 )
+			UBITRACK_THROW( "Camera intrinsics with more than six radial distortion parameters" );
 		
 		for( std::size_t i = 0; i < radial_size; ++i )
 			ar & radial_params[ i ];
diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 5d817e3..cb17146 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -718,6 +718,7 @@ struct as<Ubitrack::Math::CameraIntrinsics<T> > {
       result.dimension = o.via.array.ptr[1].as<Ubitrack::Math::Vector< std::size_t, 2 > >();
       result.matrix = o.via.array.ptr[2].as<Ubitrack::Math::Matrix< T, 3, 3 > >();
       result.radial_size = o.via.array.ptr[3].as<std::size_t>();
+      if (result.radial_size > 6) throw msgpack::type_error();
       result.radial_params = o.via.array.ptr[4].as<Ubitrack::Math::Vector< T, 6 > >();
       result.tangential_params = o.via.array.ptr[5].as<Ubitrack::Math::Vector< T, 2 > >();
       return result;
@@ -736,7 +737,10 @@ struct convert<Ubitrack::Math::CameraIntrinsics<T> > {
       v.calib_type = static_cast<typename Ubitrack::Math::CameraIntrinsics<T>::CalibType>(calib_type);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector<std::size_t, 2> >()(o.via.array.ptr[1], v.dimension);
 	  msgpack::adaptor::convert<Ubitrack::Math::Matrix< T, 3, 3 > >()(o.via.array.ptr[2], v.matrix);
-	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], v.radial_size);
+	  std::size_t radial_size;
+	  msgpack::adaptor::convert<std::size_t >()(o.via.array.ptr[3], radial_size);
+      if (radial_size > 6) throw msgpack::type_error();
+      v.radial_size = radial_size;
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 6 > >()(o.via.array.ptr[4], v.radial_params);
 	  msgpack::adaptor::convert<Ubitrack::Math::Vector< T, 2 > >()(o.via.array.ptr[5], v.tangential_params);
       return o;
-- 
2.43.0


From f8734afaffaded010fb0445c8f66494ffe704260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:08 +0000
Subject: [PATCH 039/105] fix: reading a measurement from an empty or foreign
 calibration file lets a boost exception escape

---
 src/utUtil/CalibFile.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..138dc91 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,9 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +145,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0


From 73073fb61aeae76a70a6250ef778235a57b6afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:08 +0000
Subject: [PATCH 040/105] fix: writing a calibration file to a full disk
 reports success

---
 src/utUtil/CalibFile.h | 43 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 138dc91..742c7f0 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -171,11 +171,24 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	bool bWritten = false;
+	try {
+		{
+			// create oarchive
+			boost::archive::text_oarchive archive( stream );
+
+			// write data
+			archive << data;
+		}
+
+		// the data may still be buffered
+		stream.close();
+		bWritten = stream.good();
+	} catch (std::exception& ) {
+	}
 
-	// read data
-	archive << data;
+	if ( !bWritten )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -191,11 +204,25 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	bool bWritten = false;
+	try {
+		{
+			// create oarchive
+			boost::archive::binary_oarchive archive(stream);
+
+			// write data
+			archive << data;
+		}
+
+		// the data may still be buffered
+		stream.close();
+		bWritten = stream.good();
+	}
+	catch (std::exception&) {
+	}
 
-	// read data
-	archive << data;
+	if (!bWritten)
+		UBITRACK_THROW("Could not write file " + sFile);
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From 68e82eb8d39e1d0913924adf498300188b2cea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:41 +0000
Subject: [PATCH 041/105] fix: inverting an uncertain pose flips the
 correlation of its rotation and translation errors

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..f92f11e 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) = -1. - t5445 - t5446;
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) = -1. - t5446 - t5453;
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) = -1. - t5445 - t5453;
 }
 
 
-- 
2.43.0


From 3933e4c2e969600389c01142ac501d05ab887fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:41 +0000
Subject: [PATCH 042/105] fix: transforming an uncertain vector by an uncertain
 pose ignores the covariance of the vector

---
 src/utMath/ErrorPose.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index f92f11e..002d641 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -569,8 +569,6 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::Vector< doub
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b, newCovariance );
 }
 
-//TODO
-
 ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector< double, 3 >& b )
 {
 	
@@ -584,6 +582,12 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// error of the vector itself
+	Matrix< double, 3, 3 > rotation( a.rotation() );
+	Matrix< double, 3, 3 > rotated;
+	noalias( rotated ) = ublas::prod( rotation, b.covariance );
+	noalias( newCovariance ) += ublas::prod( rotated, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From 13f1005f59c9765e361031d769f414b169066ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:54 +0000
Subject: [PATCH 043/105] fix: invertMultiply propagates errors with the
 jacobians of the plain product

---
 src/utMath/ErrorPose.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 002d641..522e3b6 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -594,20 +594,8 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 
 ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 {
-	// covariance transform
-	Matrix< double, 6, 6 > jacobian1;
-	Matrix< double, 6, 6 > jacobian2;
-	Matrix< double, 6, 6 > tmp;
-	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
-	
-	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
-	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
-	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-
-	return ErrorPose( ~static_cast< const Pose& >( a ) * static_cast< const Pose& >( b ), newCovariance );
+	// the errors of a and b are independent, so the jacobians of inversion and multiplication can be chained
+	return ~a * b;
 }
 
 
-- 
2.43.0


From 9eb5f17889015546295e723a15e89c6c9f755816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:54 +0000
Subject: [PATCH 044/105] fix: conversions between additive and multiplicative
 pose errors are swapped

---
 src/utMath/ErrorPose.cpp        |  4 ++--
 src/utMath/Stochastic/Average.h | 14 ++++----------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 522e3b6..ad2b451 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -609,7 +609,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -617,7 +617,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..669be42 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -273,7 +273,7 @@ public:
 	{
 	
 		/*
-		 * Use inverted mean value to transform the additive 7x7
+		 * Use the mean value to transform the additive 7x7
 		 * covariance to the 6x6 multiplicative format The conversion is
 		 * conducted according to the following formulas:
 		 * 
@@ -303,16 +303,10 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
-		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		const Math::ErrorPose ep = Math::ErrorPose::fromAdditiveErrorVector( ev );
+		return value_type( meanPose, ep.covariance() );
 	};
 	
 };
-- 
2.43.0


From 4dce831f855670309d0b18cb2d2fd75c15532333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:44 +0000
Subject: [PATCH 045/105] fix: dynamic vectors and matrices always compare
 equal

---
 src/utMath/Matrix.h | 6 ++++--
 src/utMath/Vector.h | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Matrix.h b/src/utMath/Matrix.h
index 7a5e02d..86c9809 100644
--- a/src/utMath/Matrix.h
+++ b/src/utMath/Matrix.h
@@ -409,8 +409,10 @@ void leftHandToRightHandMatrix(Ma& matrix)
 template<  typename T, std::size_t M, std::size_t N >
 bool operator==( const Matrix< T, M, N >& a, const Matrix< T, M, N >& b )
 {
-	for ( std::size_t r = 0; r < M; r++ )
-		for ( std::size_t c = 0; c < N; c++ )
+	if ( a.size1() != b.size1() || a.size2() != b.size2() )
+		return false;
+	for ( std::size_t r = 0; r < a.size1(); r++ )
+		for ( std::size_t c = 0; c < a.size2(); c++ )
 			if ( a( r, c ) != b( r, c ) )
 				return false;
 	return true;
diff --git a/src/utMath/Vector.h b/src/utMath/Vector.h
index fdbb3be..8ccb7f7 100644
--- a/src/utMath/Vector.h
+++ b/src/utMath/Vector.h
@@ -335,7 +335,9 @@ Vector < T, N > linearInterpolate ( const Vector< T, N >& x, const Vector< T, N
 template< typename T, std::size_t N >
 bool operator==( const Vector< T, N >& a, const Vector< T, N >& b )
 {
-	for ( std::size_t c = 0; c < N; c++ )
+	if ( a.size() != b.size() )
+		return false;
+	for ( std::size_t c = 0; c < a.size(); c++ )
 		if ( a( c ) != b( c ) )
 			return false;
 	return true;
-- 
2.43.0


From b7004031665fc0b4b8f3b1e4d30608021003432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:42 +0000
Subject: [PATCH 046/105] fix: averaging rotations of about 180 degrees mixes
 both quaternion signs

---
 src/utMath/Stochastic/Average.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 669be42..67799cc 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -156,7 +156,9 @@ void Average< Math::Quaternion >::operator() ( const value_type& value )
 	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
-	m_mean += (( value.w() >= 0 ) ? tmp : tmp * (-1) );
+	// same hemisphere as the measurements so far, which also works for rotations of about 180 degrees
+	const precision_type side = ( m_counter == 1 ) ? tmp[ 3 ] : tmp[ 0 ]*m_mean[ 0 ] + tmp[ 1 ]*m_mean[ 1 ] + tmp[ 2 ]*m_mean[ 2 ] + tmp[ 3 ]*m_mean[ 3 ];
+	m_mean += (( side >= 0 ) ? tmp : tmp * (-1) );
 };
 
 /// overloaded getAverage function for Quaternion measurements, when new struct is available this should not be necessary anymore.
@@ -175,8 +177,10 @@ void Average< Math::Pose >::operator() ( const value_type& value )
 	mean_type tmp;
 	Util::castToVector( value, tmp );
 	// The order is tx, ty, tz, qx, qy, qz, qw.
-	// check now for real part (==qw) being positive and correct if necessary:
-	if( tmp[ 6 ] < 0 )
+	// check now for the rotation being in the hemisphere of the measurements so far and correct if necessary
+	// (the real part (==qw) of the first one shall be positive):
+	const precision_type side = ( m_counter == 1 ) ? tmp[ 6 ] : tmp[ 3 ]*m_mean[ 3 ] + tmp[ 4 ]*m_mean[ 4 ] + tmp[ 5 ]*m_mean[ 5 ] + tmp[ 6 ]*m_mean[ 6 ];
+	if( side < 0 )
 	{
 		tmp[ 3 ] *= (-1);
 		tmp[ 4 ] *= (-1);
@@ -256,8 +260,10 @@ public:
 		Util::castToVector( value, tmp );
 		
 		// The order is tx, ty, tz, qx, qy, qz, qw.
-		// check now for real part (==qw) being positive and correct if necessary:
-		if( tmp[ 6 ] < 0 )
+		// check now for the rotation being in the hemisphere of the measurements so far and correct if necessary
+		// (the real part (==qw) of the first one shall be positive):
+		const precision_type side = ( m_counter == 0 ) ? tmp[ 6 ] : tmp[ 3 ]*m_mean[ 3 ] + tmp[ 4 ]*m_mean[ 4 ] + tmp[ 5 ]*m_mean[ 5 ] + tmp[ 6 ]*m_mean[ 6 ];
+		if( side < 0 )
 		{
 			tmp[ 3 ] *= (-1);
 			tmp[ 4 ] *= (-1);
-- 
2.43.0


From 3b48f9934a491403be0e1e1410fdd8ff6ad90cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:21 +0000
Subject: [PATCH 047/105] fix: k-means turns the centre of an empty cluster
 into NaN

---
 src/utMath/Stochastic/k_means.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..4b8f1de 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,13 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t n_assigned = std::count ( indices.begin(), indices.end(), k );
+			if( n_assigned > 0 )
+				means_temp[ k ] /= n_assigned;
+			else // no values assigned at all, the cluster keeps its centre
+				means_temp[ k ] = *(itMeanBegin + k);
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 884ebe4677c8928ed271a8117b1f3f5f05a54777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:21 +0000
Subject: [PATCH 048/105] fix: normal density of the mixture likelihood has the
 wrong power of 2 pi

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..06f108d 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159265358979 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From 1aecdfaa4058bc19ef1ad568cd0e00c7646e1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 049/105] fix: Gauss-Newton does not compile with the library's
 own vectors

---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..6adf81a 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T, 0, 0 >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From 65e06d8632a0b6939a00e1c36d351e48ec058f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 050/105] fix: Levenberg-Marquardt does not stop by precision
 at a zero residual

---
 src/utMath/Optimization/Optimization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Optimization.h b/src/utMath/Optimization/Optimization.h
index 8258a03..780b845 100644
--- a/src/utMath/Optimization/Optimization.h
+++ b/src/utMath/Optimization/Optimization.h
@@ -72,7 +72,7 @@ public:
 	bool operator()( const std::size_t iterations, const double resPrev, const double resNow ) const
 	{ 
 		return ( m_maxIterations > 0 && iterations >= m_maxIterations ) ||
-			( m_precision != 0.0 && fabs( resPrev - resNow ) < m_precision * resNow );
+			( m_precision != 0.0 && fabs( resPrev - resNow ) <= m_precision * resNow );
 	}
 
 protected:
-- 
2.43.0


From e3ac84cf8b939291613e1c081b941e9a99a0f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:04 +0000
Subject: [PATCH 051/105] fix: Levenberg-Marquardt accepts undefined steps and
 overflows its damping

---
 src/utMath/Optimization/LevenbergMarquardt.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..926a5e6 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -37,6 +37,7 @@
 #ifdef HAVE_LAPACK
 
 // Boost
+#include <limits>
 #include <boost/scoped_ptr.hpp>
 
 #include <boost/numeric/ublas/matrix_proxy.hpp>
@@ -208,8 +209,12 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
-			fLambda *= T( fStepFactor );
+		if ( !( fErr < fErrPrev ) ) // also rejects steps to where the problem is not defined (NaN)
+		{
+			// a damping that overflows makes the equations unsolvable
+			if ( fLambda < std::numeric_limits< T >::max() / ( T( fStepFactor ) * T( n_params ) ) )
+				fLambda *= T( fStepFactor );
+		}
 		else
 		{
 			fLambda /= T( fStepFactor );
-- 
2.43.0


From 155ecdff908ffe151e9c7de7d197ddcb9a11ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 052/105] fix: RANSAC over lists draws the same parameters
 several times and crashes without any

---
 src/utMath/Optimization/Ransac.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..7ee4a84 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -406,6 +406,15 @@ std::size_t ransac( Result& result, const std::vector< Param1 >& paramList1, con
 {
 	OPT_LOG_DEBUG( "RANSAC with " << paramList1.size() << " parameters, " << nMinInlier << " inlier required" );
 	
+	// there is no set of distinct parameters to choose
+	if ( paramList1.size() < nSetSize )
+		return 0;
+	
+	// includes every index once, the front is shuffled to choose the random sets
+	std::vector< std::size_t > iShuffle;
+	iShuffle.reserve( paramList1.size() );
+	std::generate_n( std::back_inserter( iShuffle ), paramList1.size(), IndexGenerator() );
+	
 	// set of inlier
 	std::vector< bool > bInliers( paramList1.size() );
 
@@ -427,12 +436,11 @@ std::size_t ransac( Result& result, const std::vector< Param1 >& paramList1, con
 			list1.reserve( nSetSize );
 			list2.reserve( nSetSize );
 			
-			for ( std::size_t i = nSetSize; i; i-- )
+			for ( std::size_t i = 0; i < nSetSize; i++ )
 			{
-				std::size_t iSelected = rand() % paramList1.size();
-				list1.push_back( paramList1[ iSelected ] );
-				list2.push_back( paramList2[ iSelected ] );
-				// TODO: check for double selections...
+				std::swap( iShuffle[ i ], iShuffle[ i + rand() % ( iShuffle.size() - i ) ] );
+				list1.push_back( paramList1[ iShuffle[ i ] ] );
+				list2.push_back( paramList2[ iShuffle[ i ] ] );
 			}
 			
 			// compute hypothesis
-- 
2.43.0


From cf1a661940d9841c2d95a681792aaf96c3bd8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:54 +0000
Subject: [PATCH 053/105] fix: Munkres ignores the uncovered zero it found and
 pads rectangular matrices out of range

---
 src/utMath/Graph/Munkres.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From f313b5b6654237efeaefca86f4b17780e082acfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 054/105] fix: ConicAngle is not a number for circles and off
 by 90 degrees for diagonal ellipses

---
 src/utMath/Geometry/Conic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..e39395b 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,6 +266,9 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
+		// diagonal ellipses and circles have no slope b/(a-c)
+		if( a == c )
+			return std::atan2( -b, static_cast< T > ( 0 ) ) * static_cast< T > ( 0.5 );
 		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
 		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
 		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
-- 
2.43.0


From d7d03ee3959e3de707eaed00bee5a71c7ca3c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 055/105] fix: ConicEccentricity halves the mixed coefficient

---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index e39395b..d8c59fb 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -441,7 +441,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From 7ed23aad0acd0266a4fdfb89eb10cca82fe6ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 056/105] fix: ConicCenter divides by zero for parabolas
 instead of throwing

---
 src/utMath/Geometry/Conic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index d8c59fb..138dd0c 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -398,9 +398,10 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		const T denominator = b*b - a*c;
+		if( denominator == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / denominator;
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From 08d36b6115ade7b70b2b441dc1b04971692344f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 057/105] fix: 4x4 transformation of homogeneous points uses
 the wrong entry of the last row

---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From 562b5095f483779a293f7c0bb1a55036d12ab1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 058/105] fix: normalisation scale of a constant coordinate can
 be not a number

---
 src/utMath/Geometry/PointNormalization.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/PointNormalization.h b/src/utMath/Geometry/PointNormalization.h
index 5d5060d..720f47e 100644
--- a/src/utMath/Geometry/PointNormalization.h
+++ b/src/utMath/Geometry/PointNormalization.h
@@ -78,9 +78,12 @@ void estimateNormalizationParameters( const ForwardIterator iBegin, const Forwar
 	shift *= static_cast< T >( 1 ) / n_pts;
 	scale *= static_cast< T >( 1 ) / n_pts;
 	
-	// compute standard deviation
+	// compute standard deviation (rounding can make the variance of a constant coordinate negative)
 	for ( std::size_t i = 0; i < N; i++ )
-		scale( i ) = std::sqrt( scale( i ) - ( shift( i ) * shift( i ) ) );
+	{
+		const T variance = scale( i ) - ( shift( i ) * shift( i ) );
+		scale( i ) = variance > 0 ? std::sqrt( variance ) : static_cast< T >( 0 );
+	}
 }
 
 /**
-- 
2.43.0


From a34f9058a5ed59cd498ffbf7a43d6b3b2ea518a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 059/105] fix: normalise points far from the origin without
 cancellation

The variance was computed as the difference of two means, which in single
precision gives zero or noise for point sets away from the origin, and a
homography estimated from such points was not a number.
---
 src/utMath/Geometry/PointNormalization.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Geometry/PointNormalization.h b/src/utMath/Geometry/PointNormalization.h
index 720f47e..1b04004 100644
--- a/src/utMath/Geometry/PointNormalization.h
+++ b/src/utMath/Geometry/PointNormalization.h
@@ -78,11 +78,19 @@ void estimateNormalizationParameters( const ForwardIterator iBegin, const Forwar
 	shift *= static_cast< T >( 1 ) / n_pts;
 	scale *= static_cast< T >( 1 ) / n_pts;
 	
-	// compute standard deviation (rounding can make the variance of a constant coordinate negative)
+	// compute standard deviation
 	for ( std::size_t i = 0; i < N; i++ )
 	{
-		const T variance = scale( i ) - ( shift( i ) * shift( i ) );
-		scale( i ) = variance > 0 ? std::sqrt( variance ) : static_cast< T >( 0 );
+		T variance = scale( i ) - ( shift( i ) * shift( i ) );
+		if ( variance < scale( i ) * static_cast< T >( 0.01 ) )
+		{
+			// the difference cancels for points far away from the origin: sum up the deviations
+			variance = 0;
+			for ( ForwardIterator it( iBegin ); it < iEnd; ++it )
+				variance += ( (*it)( i ) - shift( i ) ) * ( (*it)( i ) - shift( i ) );
+			variance /= n_pts;
+		}
+		scale( i ) = std::sqrt( variance );
 	}
 }
 
-- 
2.43.0


From c7375141690eec432c685ec7fbe7d2598a6152d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 060/105] fix: scale the translation of a decomposed projection
 with the calibration

The calibration matrix is normalised by a factor the translation did not get,
so the parts of an unnormalised projection did not multiply to it.
---
 src/utAlgorithm/Projection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..f951561 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -202,7 +202,7 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	// compute translation vector: t = K^-1 p^4
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
-	t = ublas::column( ttmp, 0 );
+	t = ublas::column( ttmp, 0 ) * f;
 }
 
 
-- 
2.43.0


From a5d19e1fddadf9918870c57b40b3e423c2433403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 061/105] fix: derivative of ax-xb with respect to b in
 RotHecCombine

---
 src/utAlgorithm/Function/RotHecFunction.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..18a8b95 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,12 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
+		// x is multiplied from the left here, which flips the sign of the cross product
 		jacobian2 = -jacobian1;
+		for ( unsigned i = 0; i < 3; i++ )
+			for ( unsigned j = 0; j < 3; j++ )
+				if ( i != j )
+					jacobian2( i, j ) = jacobian1( i, j );
 	}
 	
 protected:
-- 
2.43.0


From 995312a09137bd20f345794ddb54d3ae42efab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 062/105] fix: derivative of the rotated z coordinate in
 PointCorrespodencesSinglePose

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From 23de3ece696905dea25f86c244df1860bd3b42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 063/105] fix: no division by a vanishing residual coordinate
 in the tool tip derivative

---
 src/utAlgorithm/ToolTip/Optimization.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..5fdda67 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,10 +179,10 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0;
+			const VType t43 = t14 < 0 ? -1.0 : 1.0;
+			const VType t44 = t30 < 0 ? -1.0 : 1.0;
+			const VType t45 = t39 < 0 ? -1.0 : 1.0;
 			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
 			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
 			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-- 
2.43.0


From d9ab1b061775e0e84c2be81a60b1142fe0b1c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 064/105] fix: threshold and derivative in
 RotationVelocityIntegration

The exact formula was only used above an angle of 1e12 instead of 1e-12, and
the derivative of the scalar part lacked a factor of the time step.
---
 .../Optimization/Function/RotationVelocityIntegration.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 56a783a15def5a682c185c7696612a541de66209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:42 +0000
Subject: [PATCH 065/105] fix: time factor of the derivative in
 QuaternionTimeUpdate

The time was advanced to the next order before the derivative of the current
one was written, which made it dt^2/2 instead of dt/2 for the velocity.
---
 src/utTracking/Function/QuaternionTimeUpdate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..c051a12 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From 730e5e1b5404084c2e8fbf17a3bae3852f378519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:06 +0000
Subject: [PATCH 066/105] fix: derivative of the normalised rotation in
 PointCorrespodencesSinglePose

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index a7878d2..50f2c97 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -181,6 +181,16 @@ public:
 			J( i*3+1, 0 ) = J( i*3+1, 2 ) = 0;
 			J( i*3+2, 0 ) = J( i*3+2, 1 ) = 0;
 			
+			// the quaternion is normalized before it is applied, changing its length has no effect
+			for ( std::size_t r = i*3; r < i*3+3; ++r )
+			{
+				const VType along = J( r, 3 )*qx + J( r, 4 )*qy + J( r, 5 )*qz + J( r, 6 )*qw;
+				J( r, 3 ) = ( J( r, 3 ) - along*qx ) / n;
+				J( r, 4 ) = ( J( r, 4 ) - along*qy ) / n;
+				J( r, 5 ) = ( J( r, 5 ) - along*qz ) / n;
+				J( r, 6 ) = ( J( r, 6 ) - along*qw ) / n;
+			}
+			
 			// const VType t2 = qy*qy;
 			// const VType t3 = qz*qz;
 			// const VType t4 = qw*qw;
-- 
2.43.0


From 5686c7e4626747f08f3ca1b149257bf3f2f62162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:06 +0000
Subject: [PATCH 067/105] fix: dual quaternion hand-eye calibration depended on
 the signs of the quaternions

---
 src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..9848b02 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -88,7 +88,12 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		dual_type b = *itBeginHand;
+		
+		// q and -q describe the same motion but the equations below need the representations
+		// of both motions to agree in the scalar parts, which the unknown pose does not change
+		if( a[ 0 ]*b[ 0 ] + a[ 4 ]*b[ 4 ] < 0 )
+			b = -b;
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
-- 
2.43.0


From 00da84910382f7d3a7a487c91f406f313a3d7771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:40 +0000
Subject: [PATCH 068/105] fix: dual quaternion hand-eye calibration refused or
 blurred offsets without translation

---
 .../PoseEstimation6D6D/DualQuaternion.cpp     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 9848b02..4794a29 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -46,19 +46,22 @@ namespace Ubitrack{ namespace Math {
 
 struct SolveQuadratic
 {
+	/// solves ax^2 + bxy + cy^2 = 0 for two solutions [x y] of unit length, any coefficient can be zero
 	template< typename T >
-	Math::Vector< T, 2 > operator()( const Math::Vector< T, 3 >& quadratic ) const
+	void operator()( const Math::Vector< T, 3 >& quadratic, Math::Vector< T, 2 >& xy1, Math::Vector< T, 2 >& xy2 ) const
 	{
-		// solve ax^2 + bx + c = 0 for x_{1,2}
 		// assume input vector with following order[ c b a ]
 		const T c = quadratic[ 0 ];
 		const T b = quadratic[ 1 ];
-		const T m2a = 2.*quadratic[ 2 ]; // <-- 2a is needed anyway
+		const T a = quadratic[ 2 ];
 		
-		const T root = std::sqrt( (b*b)-(2.*m2a*c) );// <- 2a instead of 4a, see above
-		const T x1 = (-b + root) / m2a;// <- here as well 2a instead of 4a
-		const T x2 = -(b + root) / m2a;
-		return Math::Vector< T, 2 >( x1, x2 );
+		// the sum of equal signs avoids cancellation
+		const T root = std::sqrt( std::max< T >( 0, (b*b)-(4*a*c) ) );
+		const T m = ( b < 0 ) ? ( root-b ) / 2 : -( b+root ) / 2;
+		const T n1 = std::sqrt( m*m + a*a );
+		const T n2 = std::sqrt( c*c + m*m );
+		xy1 = Math::Vector< T, 2 >( m/n1, a/n1 );
+		xy2 = Math::Vector< T, 2 >( c/n2, m/n2 );
 	}
 };
 
@@ -193,15 +196,16 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	const value_type b = inner_product( u1, v2 ) + inner_product( u2, v1 ); 
 	const value_type c = inner_product( u2, v2 );
 	const Math::Vector< value_type, 3 > quEq( c, b, a );
-	const Math::Vector< value_type, 2 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
+	Math::Vector< value_type, 2 > l1, l2;
+	Ubitrack::Math::SolveQuadratic()( quEq, l1, l2 );
 	
 	const value_type dotU1 = inner_product( u1, u1 );
 	const value_type dotU1U2_2 = inner_product( u1, u2 ) * 2; // <- 2 times inner product
 	const value_type dotU2 = inner_product( u2, u2 );
-	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * dotU1U2_2 + dotU2;
-	const value_type s2 = s12[ 1 ] * s12[ 1 ] * dotU1 + s12[ 1 ] * dotU1U2_2 + dotU2;
-	const value_type lambda2 = (s1 > s2) ? std::sqrt( 1/s1 ) : std::sqrt( 1/s2 );
-	const value_type lambda1 = (s1 > s2) ? lambda2 * s12[ 0 ] : lambda2 * s12[ 1 ];
+	const value_type s1 = l1[ 0 ] * l1[ 0 ] * dotU1 + l1[ 0 ] * l1[ 1 ] * dotU1U2_2 + l1[ 1 ] * l1[ 1 ] * dotU2;
+	const value_type s2 = l2[ 0 ] * l2[ 0 ] * dotU1 + l2[ 0 ] * l2[ 1 ] * dotU1U2_2 + l2[ 1 ] * l2[ 1 ] * dotU2;
+	const value_type lambda1 = (s1 > s2) ? l1[ 0 ] / std::sqrt( s1 ) : l2[ 0 ] / std::sqrt( s2 );
+	const value_type lambda2 = (s1 > s2) ? l1[ 1 ] / std::sqrt( s1 ) : l2[ 1 ] / std::sqrt( s2 );
 	
 	if( (lambda1 != lambda1) || (lambda2 != lambda2) )
 	{
-- 
2.43.0


From f14fa2cf1fc01d4c39f417e6882bbb2dac345b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 069/105] fix: aligning a rotation beyond half a turn inverted
 it

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..39b0c3f 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -311,7 +311,8 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		
 		if( angle > 3.1415926535897932384626433832795 )
 		{
-			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
+			// the same rotation, turning the other way round
+			const T new_angle = angle - (2*3.1415926535897932384626433832795);
 			const T ratio = new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
-- 
2.43.0


From 4576dd716dc64850bb4b56711a27c76996e5ead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:32 +0000
Subject: [PATCH 070/105] fix: motion selection compared every motion by the
 first one

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 39b0c3f..773ba63 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -467,7 +467,7 @@ protected:
 	{
 		const std::size_t nIn = std::distance ( itBegin, itEnd );
 		const std::size_t nIs = std::distance ( relPoseList.begin(), relPoseList.end() );
-		assert( nIn <= nIs );
+		assert( nIs <= nIn );
 		
 		InputIterator it = itBegin;
 		std::advance( it, nIs );
@@ -507,7 +507,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose , ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From 54fed5000ede0a44737da16f9d278956dc81d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:43 +0000
Subject: [PATCH 071/105] fix: motion selection returned uninitialised poses
 for similar motions

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
index 2718ad8..f2967f4 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.cpp
@@ -97,11 +97,12 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 	
 	
 	typename std::vector< pose_type >::iterator itCodebook = means.begin();
-	for( std::size_t i = 0; i<n_cluster; ++i, ++itCodebook )
+	for( std::size_t i = 0; i<means.size(); ++i, ++itCodebook )
 	{
 		T max_dist( 10000 );  // <- important: should be bigger than PI
 		pose_type nearestPoseA;
 		pose_type nearestPoseB;
+		bool found = false;
 		
 		std::vector< size_t >::const_iterator itIndex = indices.begin();
 		const std::vector< size_t >::const_iterator itIndexEnd = indices.end();
@@ -119,9 +120,12 @@ void pose6D_selection_impl( const InputIterator itBeginEye, const InputIterator
 					max_dist = d;
 					nearestPoseA = *itPoseA;
 					nearestPoseB = *itPoseB;
+					found = true;
 				}
 			}
 		}
+		if( !found ) // <- similar motions can leave a cluster without any member
+			continue;
 		*itEye++ = Math::pose_cast< output_type >()( nearestPoseA );
 		*itHand++ = Math::pose_cast< output_type >()( nearestPoseB );
 		// selected_a.push_back( nearestPoseA );
-- 
2.43.0


From 300ee61b7aa78c0b1c3f816438544a77b9633407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 072/105] fix: the pose of a planar target ignored the height
 of its plane

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..408dcba 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -421,7 +421,8 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// the homography only sees the x- and y-coordinates, i.e. the plane shifted to z = 0
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 71a48eb4c93302dcc42fc6d7217db1c2dcc7e484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 073/105] fix: initial multi-camera pose used the camera pose
 in the wrong direction

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From fbf189d11da0ecb1d5dbe1ed0f28b2ac67eadddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 074/105] fix: bundle adjustment normalised the rotations
 without rescaling the translations

---
 src/utAlgorithm/BundleAdjustment.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..d6e0535 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -118,8 +118,6 @@ public:
 			const VType ty = input( camIndex + 5 );
 			const VType tz = input( camIndex + 6 );
 			
-			const Math::Pose pose( Math::Quaternion( qx, qy, qz, qw ), Math::Vector< VType, 3 >( tx, ty, tz ) );
-
 			for ( std::size_t iter_p( 0 ); iter_p < n_pts3D; ++iter_p, row_index += 2 )
 			{
 				// fetch x, y and z coordinate of 3D point from vector
@@ -128,11 +126,6 @@ public:
 				const VType y = input( pointIndex + 1 );
 				const VType z = input( pointIndex + 2 );
 				
-				Math::Vector< VType, 3 > pts ( x, y, z );
-				pts = pose * pts;
-				result( row_index + 0 ) = pts( 0 ) / pts( 2 );
-				result( row_index + 1 ) = pts( 1 ) / pts( 2 );
-				
 				const std::size_t jrow0 = row_index;
 				const std::size_t jrow1 = jrow0 + 1;
 				
@@ -187,6 +180,11 @@ public:
 				const VType t52 = t49*z;
 				const VType t50 = t46+t48-t52+ty;
 				const VType t51 = t28*t37;
+				
+				// the projection, consistent with the derivatives for quaternions that are not normalized
+				result( row_index + 0 ) = t22*t28;
+				result( row_index + 1 ) = t50*t28;
+				
 				J( jrow0, camIndex + 0 ) = t32/(t8+t13+tz-x*(t6-qx*qz*2))-t22*t24*t27;
 				J( jrow0, camIndex + 1 ) = t42+t22*t24*t37;
 				J( jrow0, camIndex + 2 ) = -t27*t28-t22*t24*t32;
@@ -319,8 +317,10 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
+		// the length of the quaternion scales the rotated points, therefore the translation has to be scaled as well
+		const value_type norm = boost::numeric::ublas::norm_2( boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
 		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / ( norm*norm ) );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From 47b42bd8f4ebc4a6e6dfe46d2750bbd5ec9884e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 075/105] fix: fish-eye intrinsics left two distortion
 parameters uninitialised

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index d0af903..7ed259a 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -182,6 +182,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From 3eb913fc0e3c236ef92f82bd3dde9cfb97420cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 076/105] fix: the general camera intrinsics constructor
 ignored the image size

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 7ed259a..6846e13 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -195,7 +195,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >( width ? width : static_cast< std::size_t >( size( 0 ) ), height ? height : static_cast< std::size_t >( size( 1 ) ) ))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From 1367b61cecda50fafcbb08f608c209ad0be31ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:46 +0000
Subject: [PATCH 077/105] fix: the diagonal opening angle divided by the wrong
 focal length

---
 src/utMath/CameraIntrinsics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 6846e13..e6efb65 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -262,9 +262,9 @@ public:
 		// angle ~= 2*arctan( d/(2*f)) -> rad -> degree: * (180/pi) 
 		static const T pi = std::acos( static_cast< T >( -1 ) ); //pi ~= acos(-1)
 		static const T factor = (360/pi);
-		const std::size_t squaredDiag  = ( dimension( 0 )*dimension( 0 )+dimension( 1 )*dimension( 1 ) );
-		const T squaredFocal = ( matrix( 0, 0 )*matrix( 0, 0 )+matrix( 1, 1 )*matrix( 1, 1 ) );
-		return factor * std::atan( std::sqrt( squaredDiag / (4*squaredFocal) ) );
+		const T halfX = dimension( 0 ) / ( 2* matrix( 0, 0 ) );
+		const T halfY = dimension( 1 ) / ( 2* matrix( 1, 1 ) );
+		return factor * std::atan( std::sqrt( halfX*halfX + halfY*halfY ) );
 	}
 	
 	/// corrects the Ubitrack intrinsics matrix to the corresponding left-handed (e.g. \c OpenCV ) camera matrix
-- 
2.43.0


From 03e2b48c0d4164dcd1f9e2b34bb12ac6e1909af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:15 +0000
Subject: [PATCH 078/105] fix: planar pose estimation assumed the origin of the
 target in front of the camera

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index 408dcba..77295a0 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -406,7 +406,7 @@ Math::ErrorPose computePose(
 		for ( std::size_t i( 0 ); i < n_points; ++i )
 		{
 			if( p3d[ i ]( 2 ) == last_dim )
-				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ), p3d[ i ]( 1 ) ) );
+				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ) - p3d[ 0 ]( 0 ), p3d[ i ]( 1 ) - p3d[ 0 ]( 1 ) ) );
 			else
 				break;
 		}
@@ -421,8 +421,8 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			// the homography only sees the x- and y-coordinates, i.e. the plane shifted to z = 0
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
+			// the homography describes the plane relative to the first point, which is in front of the camera
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( -p3d[ 0 ] ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 6dbd02a65748cfa0b986d50ba493ed30ba679285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 079/105] fix: process noise of a motion model was
 uninitialised until set

---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From 73ccd1f9f5726e54ae24c0d029bae35b414443d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 080/105] fix: rotation filter predicted into the distant
 future for earlier times

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From 53fbcd2dd4f7337ee9a40e547cc44ede37c55641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:35 +0000
Subject: [PATCH 081/105] fix: online hand-eye filter negated quaternions of
 large rotations

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..720abad 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,8 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// corresponding quaternions have equal real parts, so this decides the sign (and not the distance)
+	Function::RotHecMeasurement mf( a, a.w() * b.w() < 0 ? Math::Quaternion( -b.x(), -b.y(), -b.z(), -b.w() ) : b );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From 02292489069269b106b74c52f9e2ef5e7a0de330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 082/105] fix: setting the priority of a category and of its
 parent at the same time left stale effective priorities

---
 3rd/log4cpp/src/Category.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index 6bc6c73..79c0e4c 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -21,6 +21,15 @@
 
 namespace log4cpp {
 
+    namespace {
+        /* Serializes everything that derives the priority of a category from its parent's.
+           Created on first use and never destroyed, as categories may live longer than any other static. */
+        threading::Mutex& chainedPriorityMutex() {
+            static threading::Mutex* mutex = new threading::Mutex();
+            return *mutex;
+        }
+    }
+
     Category& Category::getRoot() {
         return getInstance("");
     }
@@ -57,6 +66,7 @@ namespace log4cpp {
 		_chainedPriority(priority),
         _isAdditive(true) {
 		if (parent != NULL) {
+			threading::ScopedLock lock(chainedPriorityMutex());
 			if (_chainedPriority == Priority::NOTSET)
 				_chainedPriority = parent->getChainedPriority();
 			parent->_addChild( this );
@@ -69,6 +79,7 @@ namespace log4cpp {
 
     void Category::setPriority(Priority::Value priority)
     throw(std::invalid_argument) {
+        threading::ScopedLock priorityLock(chainedPriorityMutex());
         if (priority < Priority::NOTSET) 
             _priority = _chainedPriority = priority;
 		else
-- 
2.43.0


From cc4fcda8d582d073e57b2b15ba41de9d80bc5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 083/105] fix: layouts with a date used by two threads at once
 shared the C library's time buffer

---
 3rd/log4cpp/src/PatternLayout.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index cef4c21..5d10b57 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -177,9 +177,14 @@ namespace log4cpp {
         }
 
         virtual void append(std::ostringstream& out, const LoggingEvent& event) {
-            struct tm *currentTime;
             time_t t = event.timeStamp.getSeconds();
-            currentTime = std::localtime(&t);
+#if defined(WIN32) || defined(_WIN32)
+            // returns a buffer of the calling thread
+            struct tm *currentTime = std::localtime(&t);
+#else
+            struct tm timeBuffer;
+            struct tm *currentTime = localtime_r(&t, &timeBuffer);
+#endif
             std::string timeFormat;
             if (_printMillis) {
                 std::ostringstream formatStream;
-- 
2.43.0


From 62b8b6a96b79ae80371004b1c6e72727bf76b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 084/105] fix: serial ports ignored the configured number of
 bits and the parity

---
 src/utUtil/SerialPort.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..82b07f2 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -300,13 +300,14 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
+	// first, as it selects 8 bits without parity
+	cfmakeraw( &m_termiosCurrent );
+
 	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
-	cfmakeraw( &m_termiosCurrent );
-
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From 88b9745210b52b4ad0c3d742d4f2b9132707767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 085/105] fix: a closed serial port still counted as open
 (descriptor closed twice, no reopening)

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 82b07f2..1c1e1f2 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -333,6 +333,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From 768be92df041edb36ca75b730f44b2fcf5f8fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 086/105] fix: a serial port that cannot be configured leaked
 its descriptor

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 1c1e1f2..a2827d9 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -315,7 +318,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From c7e752270cf9219d45cd79bf4fca93798fec94a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 087/105] fix: a failed send on a serial port reported a huge
 number of sent bytes

---
 src/utUtil/SerialPort.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index a2827d9..f6427df 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -366,6 +366,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error sending bytes" );
+
 	return writtenBytes;
 }
 
-- 
2.43.0


From f94333ad7fde8d33f0dc4b5ee7a420de741dadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 088/105] fix: the remote syslog appender used only the first
 byte of the relayer's address

---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index fff7723..f24f0c8 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -108,7 +108,7 @@ namespace log4cpp {
                     return; // fail silently                    
                 }
             }
-	    _ipAddr = *(pent->h_addr);
+	    memcpy (&_ipAddr, pent->h_addr, sizeof (_ipAddr));
 	}
 	// Get a datagram socket.
 	
-- 
2.43.0


From de155d751f5d9e1d9ed5ac0a19f6b58c5ee0d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:56 +0000
Subject: [PATCH 089/105] fix: random poses could not be instantiated

---
 src/utMath/Random/Pose.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Random/Pose.h b/src/utMath/Random/Pose.h
index 811025d..4552c46 100644
--- a/src/utMath/Random/Pose.h
+++ b/src/utMath/Random/Pose.h
@@ -104,7 +104,7 @@ struct Pose
 		: public std::unary_function< void, Math::Pose >
 	{
 		protected:
-			Random::Quaternion< double > randRotations;
+			typename Random::Quaternion< T >::Uniform randRotations;
 			const Math::Vector< T, 3 > m_min_range;
 			const Math::Vector< T, 3 > m_max_range;
 			
@@ -127,7 +127,7 @@ struct Pose
 				vec( 0 ) = distribute_uniform< T >( m_min_range( 0 ), m_max_range( 0 ) );
 				vec( 1 ) = distribute_uniform< T >( m_min_range( 1 ), m_max_range( 1 ) );
 				vec( 2 ) = distribute_uniform< T >( m_min_range( 2 ), m_max_range( 2 ) );
-				return Math::Pose( this.randRotations(), vec );
+				return Math::Pose( randRotations(), vec );
 			}
 	};
 };
-- 
2.43.0


From fffdf081f8283f2f3317c7875a50ae45fbb82583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 090/105] fix: a serial port whose device is gone reported an
 uninitialised number of pending bytes

---
 src/utUtil/SerialPort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index f6427df..de7aba5 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -378,7 +378,8 @@ unsigned long SerialPort::bytesOnRead()
 		UBITRACK_THROW( "Port is not open" );
 
 	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Error reading the number of pending bytes" );
 
 	return onread;
 }
-- 
2.43.0


From 6b42c0ee5d1f86557da4dba59957f3ac2deea357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 091/105] fix: flushing a closed serial port flushed whatever
 now has its descriptor

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index de7aba5..285e274 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -386,11 +386,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From 7521f588abb89a4bd9ce5841ce05c9f8c46a12af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:01 +0000
Subject: [PATCH 092/105] fix: drawing from a range of a single value never
 returned

---
 src/utMath/Random/Scalar.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utMath/Random/Scalar.h b/src/utMath/Random/Scalar.h
index e3b91ca..68bf49b 100644
--- a/src/utMath/Random/Scalar.h
+++ b/src/utMath/Random/Scalar.h
@@ -112,6 +112,10 @@ inline T distribute_uniform( const T min, const T max )
 template< >
 inline float distribute_uniform< float >( const float min, const float max )
 {
+	// an empty range has just one value, the distribution below would never find it
+	if( min == max )
+		return min;
+
 #ifdef RANDOM_BOOST
 	boost::uniform_real< float > uniformDist( min, max ); // Uniform distribution
 	boost::variate_generator < boost::mt19937&, boost::uniform_real< float > > Generator( RNG, uniformDist );
@@ -128,6 +132,10 @@ inline float distribute_uniform< float >( const float min, const float max )
 template< >
 inline double distribute_uniform< double >( const double min, const double max )
 {
+	// an empty range has just one value, the distribution below would never find it
+	if( min == max )
+		return min;
+
 #ifdef RANDOM_BOOST
 	boost::uniform_real< double > uniformDist( min, max ); // Uniform distribution
 	boost::variate_generator < boost::mt19937&, boost::uniform_real< double > > Generator( RNG, uniformDist );
-- 
2.43.0


From 8367ca5d4f2ed2b0ca0a93a2700e572f30ba1449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:01 +0000
Subject: [PATCH 093/105] fix: random vectors of a given covariance were drawn
 with uninitialised deviations

---
 src/utMath/Random/Vector.h | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Random/Vector.h b/src/utMath/Random/Vector.h
index 64edd5b..6fc7fd6 100644
--- a/src/utMath/Random/Vector.h
+++ b/src/utMath/Random/Vector.h
@@ -36,7 +36,9 @@
 #define __UBITRACK_RANDOM_VECTOR_H_INCLUDED__ 
 
 // std
+#include <cmath>
 #include <functional>
+#include <limits>
 
 // boost
 #include <utMath/Vector.h>
@@ -71,6 +73,9 @@ struct Vector
 		protected:
 			const Math::Vector< T, N > m_mu;
 			const Math::Vector< T, N > m_sigma;
+			/// lower triangular factor of a given covariance, otherwise not used
+			Math::Matrix< T, N, N > m_factor;
+			const bool m_bCovariance;
 			// 2013-11-07 CW: Commented out the drawing number from a covariance 
 			// the intention was good, the realization was wrong
 			// actually there is already a function to draw from a normal distribution
@@ -94,6 +99,7 @@ struct Vector
 				: std::unary_function< void, Math::Vector< T, N > >( )
 				, m_mu( boost::numeric::ublas::scalar_vector< T >( N, mu ) )
 				, m_sigma( boost::numeric::ublas::scalar_vector< T >( N, sigma ) )
+				, m_bCovariance( false )
 				// , m_sigma( boost::numeric::ublas::identity_matrix< T >( N ) * sigma )
 				{ 
 					// prepareSigma();
@@ -103,6 +109,7 @@ struct Vector
 				: std::unary_function< void, Math::Vector< T, N > >( )
 				, m_mu( mu )
 				, m_sigma( sigma )
+				, m_bCovariance( false )
 				// , m_sigma( boost::numeric::ublas::zero_matrix< T >( N ) )
 				{
 					// for( std::size_t n( 0 ); n < N; ++n )
@@ -113,16 +120,39 @@ struct Vector
 			Normal( const Math::Vector< T, N >& mu, const Math::Matrix< T, N, N >& sigma )
 				: std::unary_function< void, Math::Vector< T, N > >( )
 				, m_mu( mu )
-				// , m_sigma( sigma )
+				, m_sigma( boost::numeric::ublas::scalar_vector< T >( N, 1 ) )
+				, m_factor( boost::numeric::ublas::zero_matrix< T >( N, N ) )
+				, m_bCovariance( true )
 				{
-					///@TODO write correct algorithm how to draw from a random number from a given covariance
-					//right now this initialization would be wrong...
-					// prepareSigma();
+					// cholesky decomposition, directions without any variance are left out
+					for( std::size_t c( 0 ); c < N; ++c )
+					{
+						T pivot = sigma( c, c );
+						for( std::size_t k( 0 ); k < c; ++k )
+							pivot -= m_factor( c, k ) * m_factor( c, k );
+						if( !( pivot > std::numeric_limits< T >::epsilon() * N * sigma( c, c ) ) )
+							continue;
+
+						m_factor( c, c ) = std::sqrt( pivot );
+						for( std::size_t r( c + 1 ); r < N; ++r )
+						{
+							T value = sigma( r, c );
+							for( std::size_t k( 0 ); k < c; ++k )
+								value -= m_factor( r, k ) * m_factor( c, k );
+							m_factor( r, c ) = value / m_factor( c, c );
+						}
+					}
 				};
 
 			const Math::Vector< T, N > operator()( void ) const
 			{
 				Math::Vector< T, N > vec; 
+				if( m_bCovariance )
+				{
+					for( std::size_t n( 0 ); n < N; ++n )
+						vec( n ) = distribute_normal< T >( 0, 1 );
+					return Math::Vector< T, N >( m_mu + boost::numeric::ublas::prod( m_factor, vec ) );
+				}
 				for( std::size_t n( 0 ); n < N; ++n )
 					vec( n ) = distribute_normal< T >( m_mu[ n ], m_sigma[ n ] );
 				return vec;
-- 
2.43.0


From b2720d5f58fb11b6e00f60e3017e48040e2061d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 094/105] fix: syslog appenders configured without a facility
 used an invalid one

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index da223d5..81cac50 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -222,7 +222,7 @@ namespace log4cpp {
         else if (appenderType == "SyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
             std::string syslogHost = _properties.getString(appenderPrefix + ".syslogHost", "localhost");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             int portNumber = _properties.getInt(appenderPrefix + ".portNumber", -1);
             appender = new RemoteSyslogAppender(appenderName, syslogName, 
                                                 syslogHost, facility, portNumber);
@@ -230,7 +230,7 @@ namespace log4cpp {
 #ifdef LOG4CPP_HAVE_SYSLOG
         else if (appenderType == "LocalSyslogAppender") {
             std::string syslogName = _properties.getString(appenderPrefix + ".syslogName", "syslog");
-            int facility = _properties.getInt(appenderPrefix + ".facility", -1) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
+            int facility = _properties.getInt(appenderPrefix + ".facility", LOG_USER / 8) * 8; // * 8 to get LOG_KERN, etc. compatible values. 
             appender = new SyslogAppender(appenderName, syslogName, facility);
         }
 #endif // LOG4CPP_HAVE_SYSLOG
-- 
2.43.0


From 08dbc1d4b8322004a4b20ffd2c5209a8846c262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 095/105] fix: simple configuration files were not read beyond
 a syslog appender without facility or port

---
 3rd/log4cpp/src/SimpleConfigurator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/3rd/log4cpp/src/SimpleConfigurator.cpp b/3rd/log4cpp/src/SimpleConfigurator.cpp
index 72fb79d..e52c958 100644
--- a/3rd/log4cpp/src/SimpleConfigurator.cpp
+++ b/3rd/log4cpp/src/SimpleConfigurator.cpp
@@ -121,6 +121,8 @@ namespace log4cpp {
                         }
                         if (!(initFile >> facility)) {
                             facility = LOG_USER;
+                            // optional, the rest of the file is still to be read
+                            initFile.clear();
                         } else {
                             // * 8
                             facility *= 8;
@@ -152,9 +154,11 @@ namespace log4cpp {
                         }
                         if (!(initFile >> facility)) {
                             facility = LOG_USER;
+                            initFile.clear();
                         }
                         if (!(initFile >> portNumber)) {
                             portNumber = 514;
+                            initFile.clear();
                         }
                         appender =
                             new log4cpp::RemoteSyslogAppender(categoryName, syslogName, relayer, facility, portNumber);
-- 
2.43.0


From 9bb1dad91939730532004937677e312e82b11eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 096/105] fix: a remote syslog appender without a socket used
 the standard input

---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index f24f0c8..98fc87f 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -61,7 +61,7 @@ namespace log4cpp {
 	_relayer(relayer),
         _facility((facility == -1) ? LOG_USER : facility),
 	_portNumber((portNumber == -1) ? 514 : portNumber),
-	_socket (0),
+	_socket (-1),
 	_ipAddr (0),
 	_cludge (0)
     {
@@ -119,17 +119,21 @@ namespace log4cpp {
     }
 
     void RemoteSyslogAppender::close() {
-	if (_socket) {
+	if (_socket != -1) {
 #ifdef WIN32
 	    closesocket (_socket);
 #else
 	    ::close (_socket);
 #endif
-	    _socket = 0;
+	    _socket = -1;
 	}
     }
 
     void RemoteSyslogAppender::_append(const LoggingEvent& event) {
+	if (_socket == -1) {
+	    return; // closed or never opened
+	}
+
 	const std::string message(_getLayout().format(event));
         size_t messageLength = message.length();
 	char *buf = new char [messageLength + 16];
-- 
2.43.0


From c70ba60910af37c7af81cc1f265cd2d488c6bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 097/105] fix: sleep ended early at signals and did not sleep
 at all for a second or more of nanoseconds

---
 src/utUtil/OS.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..15844fe 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -34,6 +34,7 @@
 #include "CleanWindows.h"
 #else
 #include <time.h>
+#include <errno.h>
 #include <sys/time.h>
 #endif
 
@@ -67,9 +68,17 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
-	nanosleep( &t, NULL );
+	t.tv_sec = ms / 1000 + ns / 1000000000;
+	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns % 1000000000;
+	if ( t.tv_nsec >= 1000000000 )
+	{
+		t.tv_sec++;
+		t.tv_nsec -= 1000000000;
+	}
+
+	// a signal ends the call early and leaves the remaining time
+	while ( nanosleep( &t, &t ) != 0 && errno == EINTR )
+	{}
 }
 
 
-- 
2.43.0


From 448488028f763076cd66fe096f3943e759f99c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 098/105] fix: the log entry of an exception without a file
 name ended before the message

---
 src/utUtil/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utUtil/Exception.cpp b/src/utUtil/Exception.cpp
index a14b8d7..e6932b0 100644
--- a/src/utUtil/Exception.cpp
+++ b/src/utUtil/Exception.cpp
@@ -44,7 +44,7 @@ Exception::Exception( const std::string& sMessage, unsigned nLine, const char* s
 	, m_nLine( nLine )
 	, m_sFile( sFile ? sFile : "" )
 {
-	LOG4CPP_DEBUG( logger, "Exception thrown in " << sFile << ":" << nLine << ", message: " << sMessage );
+	LOG4CPP_DEBUG( logger, "Exception thrown in " << m_sFile << ":" << nLine << ", message: " << sMessage );
 }
 
 /* bug fix/workaround for a problem with VS2005 which has problems when the exception class is
-- 
2.43.0


From b58406487a5f2142a9c95cfba5186538a4bc3654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:34 +0000
Subject: [PATCH 099/105] fix: timers without a code location printed an
 uninitialised line number

---
 src/utUtil/BlockTimer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/BlockTimer.h b/src/utUtil/BlockTimer.h
index 844eb6b..778b14c 100644
--- a/src/utUtil/BlockTimer.h
+++ b/src/utUtil/BlockTimer.h
@@ -111,6 +111,7 @@ public:
 	BlockTimer( const std::string& sName, const std::string& sLoggingCategory = std::string() )
 		: m_sName( sName )
 		, m_pLogger( sLoggingCategory.empty() ? 0 : &log4cpp::Category::getInstance( sLoggingCategory ) )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
@@ -125,6 +126,7 @@ public:
 	BlockTimer( const std::string& sName, log4cpp::Category& logger )
 		: m_sName( sName )
 		, m_pLogger( &logger )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
-- 
2.43.0


From 1b14e2438f286c96fbed89595baee8133775818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:28 +0000
Subject: [PATCH 100/105] fix: changing the sign of a measured quaternion left
 its correlation with the position unchanged

---
 src/utTracking/PoseKalmanFilter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utTracking/PoseKalmanFilter.cpp b/src/utTracking/PoseKalmanFilter.cpp
index b44df32..da8abfc 100644
--- a/src/utTracking/PoseKalmanFilter.cpp
+++ b/src/utTracking/PoseKalmanFilter.cpp
@@ -117,7 +117,12 @@ void PoseKalmanFilter::addPoseMeasurement( const Measurement::ErrorPose& m )
 	
 	// negate quaternion
 	if ( ublas::inner_prod( rotSubState, ublas::subrange( v.value, 3, 7 ) ) < 0 )
+	{
 		ublas::subrange( v.value, 3, 7 ) *= -1;
+		// this also turns around the correlation of the rotation with the position
+		ublas::subrange( v.covariance, 0, 3, 3, 7 ) *= -1;
+		ublas::subrange( v.covariance, 3, 7, 0, 3 ) *= -1;
+	}
 	
 	// measurement update:
 	Math::Stochastic::kalmanMeasurementUpdate( m_state, m_covariance, PoseMeasurement( iR ), v.value, v.covariance, 0, iR + 4 );
-- 
2.43.0


From 8d965235604701175ee9768e74eeb1bc6c7545f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:28 +0000
Subject: [PATCH 101/105] fix: distance to an epipolar line ignored the scale
 of homogeneous points

---
 src/utAlgorithm/3DPointReconstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/3DPointReconstruction.cpp b/src/utAlgorithm/3DPointReconstruction.cpp
index abaecb3..e9afed7 100644
--- a/src/utAlgorithm/3DPointReconstruction.cpp
+++ b/src/utAlgorithm/3DPointReconstruction.cpp
@@ -52,7 +52,7 @@ T pointToPointDistImp( const Math::Vector< T, 3 > & from, const Math::Vector< T,
 {
 	Math::Vector< T, 3 > from_  = ublas::prod( fM, from );
 
-	T term = from_( 0 ) * to( 0 ) + from_( 1 )* to( 1 ) + from_( 2 );
+	T term = ( from_( 0 ) * to( 0 ) + from_( 1 )* to( 1 ) + from_( 2 ) * to( 2 ) ) / to( 2 );
 	return ( term * term ) / ( from_( 0 ) * from_( 0 ) + from_( 1 )* from_( 1 ) );
 }
 
-- 
2.43.0


From b570b98f0ff9251f2c04453bc2baed884fa3902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:28 +0000
Subject: [PATCH 102/105] fix: pose estimation refused narrow planar targets as
 collinear and accepted collinear ones

---
 .../PoseEstimation2D3D/PlanarPoseEstimation.cpp      | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index 77295a0..61e2bb1 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -441,16 +441,14 @@ Math::ErrorPose computePose(
 			f = ublas::norm_2( vZ );
 			vZ /= f;
 
-			// Check whether first three points are colinear
-			double collinearity = inner_prod( vX, vZ ) > 0.8;
-			OPT_LOG_TRACE( "Checking collinearity constraint (should be lower than 0.8): " << collinearity );
-			if ( collinearity ) {
+			// Check whether first three points are colinear: sine of the angle between the two directions
+			vZ = Math::cross_product( vX, vZ );
+			f = ublas::norm_2( vZ );
+			OPT_LOG_TRACE( "Checking collinearity constraint (should be higher than 0.01): " << f );
+			if ( !( f > 0.01 ) ) {
 				OPT_LOG_TRACE( "Points are collinear" );
 				UBITRACK_THROW( "Pose estimation requires four coplanar points in general position but three of them are collinear" );
 			}
-
-			vZ = Math::cross_product( vX, vZ );
-			f = ublas::norm_2( vZ );
 			vZ /= f;
 
 			Math::Matrix< double, 3, 3 > P;
-- 
2.43.0


From 716e8fb033f04af9c45835db95b52ff1006fc14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:28 +0000
Subject: [PATCH 103/105] fix: an empty first local bundle was given a pose of
 all points, too long ones read beyond the lists

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index c624276..7024d0d 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -240,9 +240,14 @@ void multipleCameraPoseEstimationWithLocalBundles (
 
 		LOG4CPP_DEBUG( logger, "Local bundle " << localBundleIndex <<" has "<<localBundleSize<< " 2d points. Offset in global bundle list: "<<localBundleOffset);
 
-		std::pair < Math::ErrorPose , double > estimate = 
-			multipleCameraEstimatePose (points3d, points2d, points2dWeights, camPoses, camMatrices, minCorrespondences, false,
-			Math::Pose(), localBundleOffset, localBundleOffset + localBundleSizes.at( localBundleIndex ) - 1);
+		if ( localBundleSize < 0 || localBundleSize > static_cast< int >( points3d.size() ) - localBundleOffset )
+			UBITRACK_THROW( "Local bundles must not contain more points than there are 3D points" );
+
+		// an empty bundle has no pose (and an end index of -1 would select all points)
+		std::pair < Math::ErrorPose , double > estimate( Math::ErrorPose(), -1.0 );
+		if ( localBundleSize > 0 )
+			estimate = multipleCameraEstimatePose (points3d, points2d, points2dWeights, camPoses, camMatrices, minCorrespondences, false,
+			Math::Pose(), localBundleOffset, localBundleOffset + localBundleSize - 1);
 
 		poses.push_back (estimate.first);
 		poseWeights.push_back (estimate.second);
-- 
2.43.0


From 626f68e267e48dda0bd314ffb34b878bf664d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 104/105] fix: report a document that could not be saved
 completely

TiXmlDocument::SaveFile ignored the result of fclose, which is where the
buffered last part of the file is written: a full disk was reported as success.
---
 3rd/tinyxml/tinyxml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 356d374..ba940bf 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -1098,7 +1098,9 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		bool result = SaveFile( fp );
-		fclose( fp );
+		// what is still buffered may fail to reach the file
+		if ( fclose( fp ) != 0 )
+			result = false;
 		return result;
 	}
 	return false;
-- 
2.43.0


From 923b23f116fbc4913a66488c608ccd948947143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 105/105] fix: expectation maximisation drops components of
 data in small units

---
 src/utMath/Stochastic/expectation_maximization.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 06f108d..c00ff82 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -73,7 +73,12 @@ struct Probability
 			
 			// std::cout << "Determinant " << det << std::endl;
 			
-			if( det == det && std::fabs( det ) > 1e-10 ) //trick to check if the value is valid
+			// a covariance is singular relative to its variances, whatever the unit of the values
+			value_type variances( 1 );
+			for( std::size_t i( 0 ); i<size; ++i )
+				variances *= gaussian.covariance[ i*size+i ];
+			
+			if( det == det && std::fabs( det ) > 1e-12 * std::fabs( variances ) ) //trick to check if the value is valid
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-- 
2.43.0

