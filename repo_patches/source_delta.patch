From 3e4bff02686b9644e64b59d2bc01643751638293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 01/47] fix: apply read-only marks and source locations made
 through a config view to the viewed block

---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From f6e45636421ded04634054dca56e8d33ace02a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 02/47] fix: accept config keys of one and two characters when
 reading a file

---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From 3438e70f8a4fb1bed59e82507ffc3bc0180a156c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 03/47] fix: recognise config directives only at the start of a
 line, not in the value of a malformed assignment

---
 vital/config/config_parser.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..d056513 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -229,7 +229,7 @@ public:
       } // end EOF
 
       // ------------------------------------------------------------------
-      if ( token.value == "include" )
+      if ( token.type == token_t::TK_WORD && token.value == "include" )
       {
         /*
          * Handle "include" <file-path>
@@ -281,7 +281,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "block" )
+      if ( token.type == token_t::TK_WORD && token.value == "block" )
       {
         /*
          * Handle "block" <block-name>
@@ -318,7 +318,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "endblock" )
+      if ( token.type == token_t::TK_WORD && token.value == "endblock" )
       {
         /*
          * Handled "endblock" keyword
@@ -342,7 +342,7 @@ public:
 
       // ------------------------------------------------------------------
       bool rel_path(false);
-      if ( token.value == "relativepath" )
+      if ( token.type == token_t::TK_WORD && token.value == "relativepath" )
       {
         /*
          * Handle "relatiepath" <key> = <filepath>
-- 
2.43.0


From 7e38631cb3c2d7b49ac2fb0164fa9c8c1a27cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 04/47] fix: do not read past the index of a sparse matrix
 without rows when enumerating it

---
 vital/util/enumerate_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..4928a8b 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -123,9 +123,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(mat.outerSize() > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_inner && !(*(this->m_inner)))
   {
     ++(*this);
   }
-- 
2.43.0


From 5bbce3e6f4f5ea1485758578627f1e46a6f31cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 05/47] fix: refuse configuration text that is not a timestamp
 instead of returning undetermined values

---
 vital/types/timestamp_config.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..cd5c099 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -63,11 +63,14 @@ config_block_get_value_cast( config_block_value_t const& value )
   str << value;
 
   timestamp::time_t t;
-  str >> t;
-  obj.set_time_usec( t );
-
   timestamp::frame_t f;
-  str >> f;
+  str >> t >> f;
+  if ( str.fail() )
+  {
+    throw bad_config_block_cast( "failed to convert from string representation \"" + value + "\"" );
+  }
+
+  obj.set_time_usec( t );
   obj.set_frame( f );
 
   return obj;
-- 
2.43.0


From f7526cadc7d4c57d076377a41187f0bd21e68c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 06/47] fix: convert all elements of a covariance of another
 value type

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 2fbf0d8a0725e278695fb5aba6f2b75f45ae4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 07/47] fix: keep the covariance when a feature or landmark is
 converted to another precision

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..a728594 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( f.covar() ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..2a15000 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( lm.covar() ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From bba52baa58086fd71da92b5f220a727e1ad741a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 08/47] fix: report the smallest frame of a track set that does
 not start at frame zero

---
 vital/types/track_set.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..809496f 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -120,13 +120,15 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 21858d188a58a603ac01cbad11bf7ed9f4923408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 09/47] fix: do not take tracks without states for tracks on
 frame zero

---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 809496f..9dbe9da 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -207,7 +207,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -228,7 +228,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -277,7 +277,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -298,7 +298,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From 40127c0a936ff89c8a351b604899d0e55c94966e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 10/47] fix: put the second diagonal term of the tangential
 distortion into its own Jacobian element

---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From 608c98912a0922b4813bbe999a8c0519a308a0e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 11/47] fix: read the distortion coefficients of a camera back
 from text

---
 vital/io/eigen_io.h | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..845e044 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -39,6 +39,9 @@
 
 #include <iostream>
 #include <cstring>
+#include <sstream>
+#include <string>
+#include <vector>
 
 #include <Eigen/Core>
 
@@ -75,6 +78,47 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+
+/// input stream operator for an Eigen column vector of any length
+/**
+ * The elements are the numbers on the next line that is not blank. The vector
+ * is empty if there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when the line contains something that
+ *    is not a number.
+ *
+ * \param s an input stream
+ * \param m a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& m )
+{
+  std::vector< T > values;
+  std::string line;
+  if ( ! s.eof() && ! ( s >> std::ws ).eof() && std::getline( s, line ) )
+  {
+    std::istringstream ls( line );
+    while ( ! ( ls >> std::ws ).eof() )
+    {
+      T value;
+      if ( ! ( ls >> value ) )
+      {
+        throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                    "parsing an Eigen::Matrix" );
+      }
+      values.push_back( value );
+    }
+  }
+  m.resize( values.size() );
+  for ( size_t i = 0; i < values.size(); ++i )
+  {
+    m[i] = values[i];
+  }
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From d858aaf6a1a6488663f9c66000f25e137b0f1781 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 12/47] fix: make a similarity from a matrix that is none the
 identity instead of leaving it undetermined

---
 vital/types/similarity.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vital/types/similarity.cxx b/vital/types/similarity.cxx
index 436b373..432bbda 100644
--- a/vital/types/similarity.cxx
+++ b/vital/types/similarity.cxx
@@ -46,7 +46,10 @@ namespace vital {
 template < typename T >
 similarity_< T >
 ::similarity_( const Eigen::Matrix< T, 4, 4 >& M )
-  : m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
+  : scale_( 1 ),
+  rot_(),
+  trans_( 0, 0, 0 ),
+  m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
 {
   if ( ( M( 3, 0 ) != T( 0 ) )
        || ( M( 3, 1 ) != T( 0 ) )
@@ -59,8 +62,8 @@ similarity_< T >
     return;
   }
   Eigen::Matrix< T, 3, 3 > sr = M.template block< 3, 3 > ( 0, 0 );
-  this->scale_ = sr.determinant();
-  if ( this->scale_ <= T( 0 ) )
+  const T det = sr.determinant();
+  if ( det <= T( 0 ) )
   {
     // similarity must have positive scale
     // TODO throw an exception
@@ -68,7 +71,7 @@ similarity_< T >
     return;
   }
   // take the cube root
-  this->scale_ = std::pow( this->scale_, static_cast< T > ( 1 / 3.0 ) );
+  this->scale_ = std::pow( det, static_cast< T > ( 1 / 3.0 ) );
   // factor scale out of sr
   sr /= this->scale_;
   this->rot_ = rotation_< T > ( sr );
-- 
2.43.0


From 6673250468cfc2cf1951492b5c3497155228dc28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 13/47] fix: allow converting a homography to another precision

---
 vital/types/homography.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/homography.h b/vital/types/homography.h
index 76642cc..f331790 100644
--- a/vital/types/homography.h
+++ b/vital/types/homography.h
@@ -147,7 +147,7 @@ public:
   template < typename U >
   explicit
   homography_< T > ( homography_< U > const & other )
-  : h_( other.h_.template cast< T > () )
+  : h_( other.get_matrix().template cast< T > () )
   {
   }
 
-- 
2.43.0


From df5b96f67a1cafc88582fd9185bab91d3cdea730 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 14/47] fix: copy the data of a dynamic descriptor along with
 it

---
 vital/types/descriptor.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..c952fc7 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,29 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy constructor
+  descriptor_dynamic< T > ( descriptor_dynamic< T > const& other )
+  : descriptor_array_of< T > ( other ),
+  data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( descriptor_dynamic< T > const& other )
+  {
+    if ( this != &other )
+    {
+      T* new_data = new T[other.length_];
+      std::copy( other.data_, other.data_ + other.length_, new_data );
+      delete [] data_;
+      data_ = new_data;
+      length_ = other.length_;
+    }
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 7b4eaf050939e950d27a71afa0efd40f97521d07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 15/47] fix: terminate the module path in the buffer it was put
 in

---
 vital/util/get_paths.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..77e8cd0 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -79,7 +79,7 @@ get_module_path()
     char ppath[4096];
     int length(0);
     wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
+    ppath[length] = '\0';
 
     // convert to string
     path = ppath;
-- 
2.43.0


From 19a6d1cf77f75f78cc3b9ea650e854c7cda64aa2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 16/47] fix: report a configuration file that can not be opened
 for writing

---
 vital/config/config_block_io.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..6dcaa7e 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -395,6 +395,12 @@ write_config_file( config_block_sptr const& config,
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
 
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path,
+          "Could not open file for writing." );
+  }
+
   write_config( config, ofile );
   ofile.close();
 }
-- 
2.43.0


From 7332c8b319f28511fb44ea02bc38436b4985c83f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 17/47] fix: report a camera file that can not be opened for
 writing, and free a camera that can not be read

---
 vital/io/camera_io.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..86046bd 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -70,9 +70,9 @@ read_krtd_file( path_t const& file_path )
   }
 
   // Read the file
-  simple_camera* cam = new simple_camera();
+  std::shared_ptr< simple_camera > cam( new simple_camera() );
   input_stream >> *cam;
-  return camera_sptr(cam);
+  return cam;
 }
 
 
@@ -117,6 +117,10 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   ofile << cam;
   ofile.close();
 }
-- 
2.43.0


From 914219339b8e71471d0df8794fe0de1705a5e391 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 18/47] fix: report a landmark or track file that can not be
 opened for writing

---
 vital/io/landmark_map_io.cxx | 4 ++++
 vital/io/track_set_io.cxx    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..81c1700 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..fa32141 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -141,6 +141,10 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
-- 
2.43.0


From da3a9b1a1ff8c610a361cfc8e7e564750a89fb1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 19/47] fix: stop reading landmarks at the number of vertices
 given in the file

---
 vital/io/landmark_map_io.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 81c1700..06780cb 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -251,6 +251,12 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
+    // exit if we have read the expected number of points
+    if ( vert_count >= num_verts )
+    {
+      break;
+    }
+
     // TODO throw exceptions if tokens.size() != vert_props.size()
     // or if the values do not parse as expected
     double x=0, y=0, z=0;
@@ -311,12 +317,6 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
-
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
   }
 
   ifile.close();
-- 
2.43.0


From d9395fac6af92e584f57c3f7a0a182e494de8976 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 20/47] fix: refuse an incomplete line of a track file instead
 of using undetermined values

---
 vital/io/track_set_io.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index fa32141..40570f5 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -83,7 +83,11 @@ read_track_file( path_t const& file_path )
     frame_id_t fid;
     feature_d feat;
     std::stringstream ss( line );
-    ss >> tid >> fid >> feat;
+    if ( ! ( ss >> tid >> fid >> feat ) )
+    {
+      throw file_not_read_exception( file_path,
+            "Line is not a complete track state: " + line );
+    }
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
-- 
2.43.0


From 10815033c64b7d864bb53b06d8b9b762a474a71a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 21/47] fix: refuse to write tracks with states without a
 feature instead of dereferencing them

---
 vital/io/track_set_io.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 40570f5..6eb55c6 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -122,6 +122,20 @@ write_track_file( track_set_sptr const& tracks,
           "No tracks in the given track_set!" );
   }
 
+  // A state without a feature can not be represented in the file
+  std::vector< vital::track_sptr > trks = tracks->tracks();
+  VITAL_FOREACH( vital::track_sptr t, trks )
+  {
+    VITAL_FOREACH( vital::track::track_state const& s, *t )
+    {
+      if ( ! s.feat )
+      {
+        throw file_write_exception( file_path,
+              "A track has a state without a feature!" );
+      }
+    }
+  }
+
   // If the given path is a directory, we obviously can't write to it.
   if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
   {
@@ -149,7 +163,6 @@ write_track_file( track_set_sptr const& tracks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
-  std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
     VITAL_FOREACH( vital::track::track_state const& s, *t )
-- 
2.43.0


From 826491ccf53da5302c87b45d6fbdb786056eaa0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:51:34 +0000
Subject: [PATCH 22/47] fix: allow converting an essential or fundamental
 matrix to another precision

---
 vital/types/essential_matrix.h   | 4 ++--
 vital/types/fundamental_matrix.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/types/essential_matrix.h b/vital/types/essential_matrix.h
index fd17723..4390a15 100644
--- a/vital/types/essential_matrix.h
+++ b/vital/types/essential_matrix.h
@@ -129,8 +129,8 @@ public:
   template <typename U>
   explicit
   essential_matrix_<T>( essential_matrix_<U> const &other )
-    : rot_( static_cast<rotation_<T> >(other.rot_) ),
-      trans_( other.trans_.template cast<T>() )
+    : rot_( static_cast<rotation_<T> >(other.get_rotation()) ),
+      trans_( other.get_translation().template cast<T>() )
   {
   }
 
diff --git a/vital/types/fundamental_matrix.h b/vital/types/fundamental_matrix.h
index 9b9d4b9..fb4bca7 100644
--- a/vital/types/fundamental_matrix.h
+++ b/vital/types/fundamental_matrix.h
@@ -111,7 +111,7 @@ public:
   template <typename U>
   explicit
   fundamental_matrix_<T>( fundamental_matrix_<U> const &other )
-    : mat_( other.mat_.template cast<T>() )
+    : mat_( other.matrix().template cast<T>() )
   {
   }
 
-- 
2.43.0


From 856f36be3cd762e54766d3fdabe416011eda5e65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 23/47] fix: allocate room for the terminator of the error
 messages of the C interface

---
 vital/bindings/c/helpers/c_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..72452b1 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -70,7 +70,8 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      PEH_eh_ptr_cast->message =                                             \
+        (char*)malloc(sizeof(char) * (strlen(msg) + 1));                     \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 7ad6ab1671a48cf81cfcf42d8c3b4582c534f24d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 24/47] fix: allow reading and writing config files through the
 C interface without an error handle

---
 vital/bindings/c/config_block.cxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
-- 
2.43.0


From fab348ea8c0c74613f6ecff0fef7c2355571b2b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 25/47] fix: allocate room for the terminators of the string
 lists of the C interface

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
-- 
2.43.0


From 737bacfa6a9936a9efce05fcca004e0564dd7942 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 26/47] fix: return the result of checking an implementation's
 configuration from the C interface

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..5f73fac 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From 14a1f98d5e98ebf66fbcbbc3aebb3be289012670 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 27/47] fix: give the C camera map functions the C linkage they
 are declared with

---
 vital/bindings/c/camera_map.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..5d7c533 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,9 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
+
+using namespace kwiver;
 
 
 /// New, simple camera map
@@ -125,5 +127,4 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
       ++i;
     }
   );
-
-} }
+}
-- 
2.43.0


From 6d3e9ecb6ba0c36d49e2830b00b1457437b5b381 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 28/47] fix: give the general C algorithm functions the C
 linkage they are declared with

---
 vital/bindings/c/algorithm.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 5f73fac..f225f43 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} } // end namespace
 
 
 // ===========================================================================
@@ -127,5 +127,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
     );
   );
   return false;
-
-} } // end namespace
+}
-- 
2.43.0


From 73fd89a4b8e2e9c624ec13085f185080212a59e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 29/47] fix: stop base64 decoding at the end mark instead of
 returning an extra byte

---
 vital/kwiversys/Base64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..9ac8974 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -177,6 +177,14 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
     { 
     return 0; 
     }
+
+  /* The padding character in the first two places marks the end of the stream
+     and encodes nothing */
+
+  if (src[0] == '=' || src[1] == '=')
+    {
+    return 0;
+    }
   
   /* Decode the 3 bytes */
 
-- 
2.43.0


From 3a9b93fb180025a402762af74a2b84651923fef7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 30/47] fix: never read past the given input length in base64
 decoding

---
 vital/kwiversys/Base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 9ac8974..fa3a4b5 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -228,7 +228,7 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From 92d0193ccfa5a82a23235abdc402ddfed1568bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 31/47] fix: collapse runs of more than two slashes when
 converting a path

---
 vital/kwiversys/SystemTools.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..cee4e6d 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2031,7 +2031,11 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
 
   if ( hasDoubleSlash )
     {
-    SystemTools::ReplaceString(path, "//", "/");
+    // one pass only halves a longer run of slashes
+    while(path.find("//") != std::string::npos)
+      {
+      SystemTools::ReplaceString(path, "//", "/");
+      }
     }
 #endif
   // remove any trailing slash
-- 
2.43.0


From f1fcf7960bb27bcda5f30eb7188bdd8fa5b442d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:46 +0000
Subject: [PATCH 32/47] fix: everything below a root directory is in a
 subdirectory of it

---
 vital/kwiversys/SystemTools.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index cee4e6d..951a84b 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4870,7 +4870,13 @@ bool SystemTools::IsSubDirectory(const std::string& cSubdir, const std::string&
   std::string dir = cDir;
   SystemTools::ConvertToUnixSlashes(subdir);
   SystemTools::ConvertToUnixSlashes(dir);
-  if(subdir.size() > dir.size() && subdir[dir.size()] == '/')
+  // a root ("/" or "c:/") keeps its slash
+  std::string::size_type slash = dir.size();
+  if(slash > 0 && dir[slash - 1] == '/')
+    {
+    --slash;
+    }
+  if(subdir.size() > dir.size() && subdir[slash] == '/')
     {
     std::string s = subdir.substr(0, dir.size());
     return SystemTools::ComparePath(s, dir);
-- 
2.43.0


From 9188639705a3fe87dc852680289f703998196d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:46 +0000
Subject: [PATCH 33/47] fix: SplitString no longer leaves separators in the
 parts

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 951a84b..2f2ff66 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1852,12 +1852,12 @@ std::vector<kwsys::String> SystemTools::SplitString(const std::string& p, char s
     paths.push_back("/");
     }
   std::string::size_type pos1 = 0;
-  std::string::size_type pos2 = path.find(sep, pos1+1);
+  std::string::size_type pos2 = path.find(sep, pos1);
   while(pos2 != std::string::npos)
     {
     paths.push_back(path.substr(pos1, pos2-pos1));
     pos1 = pos2+1;
-    pos2 = path.find(sep, pos1+1);
+    pos2 = path.find(sep, pos1);
     }
   paths.push_back(path.substr(pos1, pos2-pos1));
 
-- 
2.43.0


From 5eb666e601ec583474c8de2211cecbd538bb4c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:09 +0000
Subject: [PATCH 34/47] fix: a home directory that is the root stays a full
 path

---
 vital/kwiversys/SystemTools.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 2f2ff66..55a7556 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3992,8 +3992,9 @@ void SystemTools::SplitPath(const std::string& p,
         }
       }
 #endif
-    if(!homedir.empty() && (*homedir.rbegin() == '/' ||
-                            *homedir.rbegin() == '\\'))
+    // a home that is the root directory keeps its slash
+    if(homedir.size() > 1 && (*homedir.rbegin() == '/' ||
+                              *homedir.rbegin() == '\\'))
       {
       homedir.resize(homedir.size() - 1);
       }
-- 
2.43.0


From e30f7d196fd817dd228ea7fa29ead765b08eee66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 35/47] fix: LOG_ASSERT compiles and logs at the level it
 documents

---
 vital/logger/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 7eaf82d..dc40f80 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -242,8 +242,8 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
 #define LOG_ASSERT( logger, cond, msg ) do {                   \
     if ( ! ( cond ) ) {                                        \
       std::stringstream _oss_; _oss_  << "ASSERTION FAILED: (" \
-                                      << # cond ")\n"  << msg; \
-      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE );     \
+                                      # cond ")\n"  << msg;    \
+      logger->log_fatal( _oss_.str(), KWIVER_LOGGER_SITE ); }  \
 } while ( 0 )
 
 
-- 
2.43.0


From e551e219b4a83e24bf4730dea21d53a4fc67f18c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:45:05 +0000
Subject: [PATCH 36/47] fix: the fraction in the default logger's time stamp is
 three digits of the same second

---
 vital/logger/default_logger.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..824d044 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -203,7 +203,6 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
     strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
 
     {
@@ -212,7 +211,7 @@ private:
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << std::setfill( '0' ) << std::setw( 3 ) << fractional_seconds << std::setfill( ' ' )
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From 79eefb8a921e1e08a5a08dfe517329c7409e8271 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:47:20 +0000
Subject: [PATCH 37/47] fix: plugins are selected by the module name they are
 listed under

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..f2769a0 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From 76ff4f559d068b7ac3dd324342b975ca390b7c24 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:08:39 +0000
Subject: [PATCH 38/47] fix: a copied regular expression keeps the groups of
 the last search

---
 vital/kwiversys/RegularExpression.cxx | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..1c6338a 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -55,8 +55,12 @@ RegularExpression::RegularExpression (const RegularExpression& rxp) {
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -90,8 +94,12 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=0; ind < NSUBEXP; ++ind)              // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -366,7 +374,11 @@ bool RegularExpression::compile (const char* exp) {
         printf ("RegularExpression::compile(): Error in compile.\n");
         return false;
       }
-    this->startp[0] = this->endp[0] = this->searchstring = 0;
+    for (int i = 0; i < NSUBEXP; ++i)
+      {
+      this->startp[i] = this->endp[i] = 0;
+      }
+    this->searchstring = 0;
 
     // Small enough for pointer-storage convention?
     if (regsize >= 32767L) {    // Probably could be 65535L.
-- 
2.43.0


From 8805b2b1809866aa6c9576a1b503e0528f3d2e9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 39/47] fix: help for command line options stays within its
 buffers and texts

---
 vital/kwiversys/CommandLineArguments.cxx | 35 ++++++++++--------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..d0968c2 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -587,10 +587,7 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
-
+  const std::string::size_type width = maxlen;
   maxlen += 4; // For the space before and after the option
 
   // Print help for each option
@@ -602,19 +599,20 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      std::string argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
+        }
+      if ( argument.size() < width )
+        {
+        argument.append(width - argument.size(), ' ');
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
@@ -624,13 +622,10 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
         }
       if ( cnt > 0 )
         {
@@ -640,7 +635,7 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( this->LineLength > maxlen && skip > this->LineLength - maxlen )
         {
         skip = this->LineLength - maxlen;
         for ( cc = skip-1; cc > 0; cc -- )
-- 
2.43.0


From 336b54c349787fb6f963210b618650f3387690f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 40/47] fix: values taken by an option are not left among the
 remaining arguments

---
 vital/kwiversys/CommandLineArguments.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index d0968c2..6474084 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -239,6 +239,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -272,6 +273,7 @@ int CommandLineArguments::Parse()
             break;
             }
           CommandLineArguments_DEBUG(" populate multi argument value: " << marg);
+          this->Internals->LastArgument = cc;
           if ( !this->PopulateVariable(cs, marg.c_str()) )
             {
             return 0;
-- 
2.43.0


From 9c29e6d8463ebaba094ccd819650067a255e3695 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:24:55 +0000
Subject: [PATCH 41/47] fix: ranges can be inserted into hash tables

---
 vital/kwiversys/hashtable.hxx.in | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..d30a192 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -427,8 +427,7 @@ public:
   void insert_unique(_ForwardIterator __f, _ForwardIterator __l,
                      std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -438,8 +437,7 @@ public:
   void insert_equal(_ForwardIterator __f, _ForwardIterator __l,
                     std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From fad6f3b4125bf023863293477cb1ca675a29ce8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:51:51 +0000
Subject: [PATCH 42/47] fix: splitting a program from its arguments ends when a
 space is in front

---
 vital/kwiversys/SystemTools.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 55a7556..7e9113f 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4607,6 +4607,11 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
       args = dir.substr(spacePos, dir.size()-spacePos);
       return;
       }
+    // nothing is left in front of a space at the beginning
+    if(spacePos == 0)
+      {
+      break;
+      }
     // move past the space for the next search
     spacePos--;
     spacePos = dir.rfind(' ', spacePos);
-- 
2.43.0


From 1cc19e32e7492812be880c143fa9c72f9b7df6a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 43/47] fix: an invalid matrix operation carries its reason

---
 vital/exceptions/math.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/exceptions/math.cxx b/vital/exceptions/math.cxx
index 8d85e8e..3aad037 100644
--- a/vital/exceptions/math.cxx
+++ b/vital/exceptions/math.cxx
@@ -77,6 +77,7 @@ point_maps_to_infinity
 
 invalid_matrix_operation
 ::invalid_matrix_operation(std::string reason) VITAL_NOTHROW
+  : m_reason(reason)
 {
   m_what = "Invalid operation: " + reason;
 }
-- 
2.43.0


From b8f6af717ec52c96e3d1f1f9b6d27777336e2ffa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 44/47] fix: the wall timer measures time where the standard
 clock is available

---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From cef1d63bc08d48d8eae582a7fd9777b0cd22cdf0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:11:20 +0000
Subject: [PATCH 45/47] fix: timer headers include what they use

---
 vital/util/timer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/util/timer.h b/vital/util/timer.h
index d524e6f..7a5c34a 100644
--- a/vital/util/timer.h
+++ b/vital/util/timer.h
@@ -39,6 +39,9 @@
 #include <vital/vital_config.h>
 #include <vital/vital_export.h>
 
+#include <iostream>
+#include <string>
+
 namespace kwiver {
 namespace vital {
 
-- 
2.43.0


From ad2f10434249ddb0eaaa387467027702175591b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 46/47] fix: lines read from a stream keep carriage returns
 inside them and the length asked for

---
 vital/kwiversys/SystemTools.cxx | 52 +++++++--------------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 7e9113f..4a38d13 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4658,21 +4658,14 @@ bool SystemTools::GetLineFromStream(std::istream& is,
                                     bool* has_newline /* = 0 */,
                                     long sizeLimit /* = -1 */)
 {
-  const int bufferSize = 1024;
-  char buffer[bufferSize];
-  bool haveData = false;
-  bool haveNewline = false;
-
   // Start with an empty line.
   line = "";
 
-  long leftToRead = sizeLimit;
-
   // Early short circuit return if stream is no good. Just return
   // false and the empty line. (Probably means caller tried to
   // create a file stream with a non-existent file name...)
   //
-  if(!is)
+  if(!is || sizeLimit == 0)
     {
     if(has_newline)
       {
@@ -4681,52 +4674,27 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     return false;
     }
 
-  // If no characters are read from the stream, the end of file has
-  // been reached.  Clear the fail bit just before reading.
-  while(!haveNewline &&
-        leftToRead != 0 &&
-        (is.clear(is.rdstate() & ~std::ios::failbit),
-         is.getline(buffer, bufferSize), is.gcount() > 0))
+  std::getline(is, line);
+  bool haveData = !line.empty() || !is.eof();
+  if(!line.empty())
     {
-    // We have read at least one byte.
-    haveData = true;
-
-    // If newline character was read the gcount includes the character
-    // but the buffer does not: the end of line has been reached.
-    size_t length = strlen(buffer);
-    if(length < static_cast<size_t>(is.gcount()))
-      {
-      haveNewline = true;
-      }
-
     // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
+    if(*line.rbegin() == '\r')
       {
-      buffer[length-1] = 0;
+      line.resize(line.size() - 1);
       }
 
-    // if we read too much then truncate the buffer
-    if (leftToRead > 0)
+    // if we read too much then truncate the line
+    if(sizeLimit > 0 && line.size() > static_cast<size_t>(sizeLimit))
       {
-      if (static_cast<long>(length) > leftToRead)
-        {
-        buffer[leftToRead-1] = 0;
-        leftToRead = 0;
-        }
-      else
-        {
-        leftToRead -= static_cast<long>(length);
-        }
+      line.resize(static_cast<size_t>(sizeLimit));
       }
-
-    // Append the data read to the line.
-    line.append(buffer);
     }
 
   // Return the results.
   if(has_newline)
     {
-    *has_newline = haveNewline;
+    *has_newline = !is.eof();
     }
   return haveData;
 }
-- 
2.43.0


From e47de21e423c325a579c86afc417da5004bf34d9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:18:50 +0000
Subject: [PATCH 47/47] fix: erasing from a hash table by the key of one of its
 elements does not use it after it is gone

---
 vital/kwiversys/hashtable.hxx.in | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index d30a192..8031fb3 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -765,12 +765,16 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
   size_type __erased = 0;
 
   if (__first) {
+    // The key may be the one of an element to be erased, so nothing is
+    // deleted before the last comparison.
+    _Node* __removed = 0;
     _Node* __cur = __first;
     _Node* __next = __cur->_M_next;
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __removed;
+        __removed = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -786,6 +790,11 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
       ++__erased;
       --_M_num_elements;
     }
+    while (__removed) {
+      __next = __removed->_M_next;
+      _M_delete_node(__removed);
+      __removed = __next;
+    }
   }
   return __erased;
 }
-- 
2.43.0

