From ca3b8471ffd5f97838ea035af4f59efe5058778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 001/359] fix: string_view::pop_front_unsafe( count ) returned
 the whole view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..d9557cf 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1162,7 +1162,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From 0865710c32edbd961f9f52294884d217c69d6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 002/359] fix: string_view::pop_back_until( CharT, nodiscard )
 did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d9557cf..f1567b2 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1381,7 +1381,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
-- 
2.43.0


From 523a79db246832721b6df039332be46e58a67240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 003/359] fix: string_view::find( CharT, pos ) returned a
 position relative to pos and misread wide views

---
 include/daw/daw_string_view.h | 42 ++++++++++-------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f1567b2..a97bfa0 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1994,49 +1994,31 @@ namespace daw {
 			                                        size_type pos = 0 ) const {
 
 				assert( pos <= size( ) );
-				auto first = data( ) + pos;
-				auto const sz = static_cast<std::size_t>( data_end( ) - first );
+				auto const sz = size( );
 #if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
 				DAW_IF_NOT_CONSTEVAL {
 					if constexpr( sizeof( CharT ) == 1 ) {
-						void const *r = std::memchr(
-						  static_cast<void const *>( first ), static_cast<char>( c ), sz );
-						if( r == nullptr ) {
+						if( pos == sz ) {
 							return npos;
 						}
-						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
-						wchar_t const *r =
-						  ::wmemchr( const_cast<wchar_t *>(
-						               reinterpret_cast<wchar_t const *>( first ) ),
-						             static_cast<wchar_t>( c ),
-						             sz );
+						void const *r =
+						  std::memchr( static_cast<void const *>( data( ) + pos ),
+						               static_cast<unsigned char>( c ),
+						               sz - pos );
 						if( r == nullptr ) {
 							return npos;
 						}
-						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
-					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
-							if( first[n] == c ) {
-								return n;
-							}
-						}
-						return npos;
+						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
+						                                 data( ) );
 					}
 				}
-				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
-						if( first[n] == c ) {
-							return n;
-						}
+				for( std::size_t n = pos; n < sz; ++n ) {
+					if( m_first[n] == c ) {
+						return n;
 					}
-					return npos;
-#if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
 				}
-#endif
+				return npos;
 			}
 
 			[[nodiscard]] DAW_ATTRIB_FLATTEN constexpr size_type
-- 
2.43.0


From 32ec3432a897d5474d606b212399d6779f21bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 004/359] fix: string_view::contains( ptr, pos, count )
 returned the position as a bool

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a97bfa0..bae422a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2066,7 +2066,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From fc0e5534d0089536b1bdf8538dde3baf76965d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 005/359] fix: string_view::find_last_not_of and
 find_last_not_of_if read past the end when pos == size( )

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index bae422a..bd8464a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2439,7 +2439,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2463,7 +2463,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 0f24f23edab1ca0327d3f5187f61c40865ad86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 006/359] fix: string_view::substr( ) and substr_unsafe tagged
 views as zero terminated when the source is not

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index bd8464a..d541b09 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1840,7 +1840,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and is_zero_terminated( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 362af55b55b0cbfff84a9a55bf7d02cd5ee990c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 007/359] fix: string_view::try_pop_front_until( pred ) removed
 a character when nothing matched

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d541b09..82ee7fe 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1579,7 +1579,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From 654335ec95f4472a2f9d1f2e6e1a5baecaa7d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 008/359] fix: string_view::pop_back_until( sv, nodiscard )
 discarded the delimiter

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 82ee7fe..30cc48e 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1365,7 +1365,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - pos - where.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From 606873cb0ebf31c24cff4ef694fd3be246091512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 009/359] fix: string_view::try_pop_back_until( sv, nodiscard )
 discarded the delimiter

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 30cc48e..f0f5835 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1618,7 +1618,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - pos - where.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From 01e4bba176f188065c80ea26cbc841b0e8bf463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 010/359] fix: string_view::try_pop_back_until( CharT,
 nodiscard ) returned the delimiter it also left behind

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f0f5835..c4067da 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1633,7 +1633,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
-- 
2.43.0


From d9d24ceae38fb1ecb7cded8bcaf55c7192fa1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 011/359] fix: string_view::try_pop_back_until( CharT )
 returned the delimiter it should discard

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index c4067da..12c4408 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1649,7 +1649,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
-- 
2.43.0


From f368f1f0f8f2063b5a835427e13cd9504a914b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 012/359] fix: string_view::try_pop_back_until( pred ) returned
 the delimiter it should discard

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 12c4408..1566011 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1672,7 +1672,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
-- 
2.43.0


From ec5b0e35e9bf85b2ad19ae754c5079863541020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 013/359] fix: string_view::try_pop_back_until( pred, nodiscard
 ) returned the delimiter it also left behind

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 1566011..d27be3f 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1695,7 +1695,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From 0df2c74bd07859ba4b3c31ba897ac193781beac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 014/359] fix: string_view::pop_back_until( pred, nodiscard )
 took the delimiter out of the view

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d27be3f..05c189c 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1466,8 +1466,8 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos );
-				remove_suffix( size( ) - pos );
+				auto result = substr( pos + 1 );
+				remove_suffix( size( ) - pos - 1 );
 				return result;
 			}
 
-- 
2.43.0


From 129533d1aead4a93648ef3ec63223e8a7876435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 015/359] fix: string_view::trim_suffix_copy did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 05c189c..4b57255 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2756,7 +2756,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 4bb825d43b8b8730d47dee9fef15d38b8703317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 016/359] fix: string_view::remove_prefix_until( pred,
 nodiscard ) did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 4b57255..38b50d6 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1775,7 +1775,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
-- 
2.43.0


From 03cce66349aabd5d6fefb875e3f0d5ba09c468ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 017/359] fix: string_view::find_first_match( { needles } )
 missed needles after a partial match of an earlier one

---
 include/daw/daw_string_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 38b50d6..f40ee4c 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,10 +362,11 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						if( needle.size( ) > haystack.size( ) ) {
+							continue;
+						}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
-- 
2.43.0


From e3f4fad641654161bf65f509aa60f62ef557f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 018/359] fix: string_view::find_first_match( { needles } )
 gave up at the first needle that runs past the end

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f40ee4c..908f1f2 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -374,7 +374,7 @@ namespace daw {
 								return haystack.data( );
 							}
 							if( it == last ) {
-								return last;
+								break;
 							}
 							if( not( *it == *s_it ) ) {
 								break;
-- 
2.43.0


From 281cc594cec386900009a0fbe7911189e89c2ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 019/359] fix: string_view::search missed a match at the very
 end

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 908f1f2..a36747e 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2197,7 +2197,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( ( pos + v.size( ) ) > size( ) or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
-- 
2.43.0


From 524f1a0c109cf7ef7219cacda2573e6370218a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:52 +0000
Subject: [PATCH 020/359] fix: string_view::search_last returned the first
 match, or pos when there is none

---
 include/daw/daw_string_view.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a36747e..ed9b729 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2218,17 +2218,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 3b3866cada8817135b7fa92296917f2044e3038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 021/359] fix: vector::insert and split_buffer growth did not
 compile

---
 include/daw/split_buffer.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..513174d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
-- 
2.43.0


From 4b5929633c93b125bdd33146a15c7b4794cf1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 022/359] fix: vector::emplace before the end did not compile

---
 include/daw/vector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..ea340ea 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -664,10 +664,9 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = value_type( DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
-					*p = std::move( tmp.get( ) );
+					*p = std::move( tmp );
 				}
 			} else {
 				allocator_type &a = alloc( );
-- 
2.43.0


From c66f53fba1eadbecc224037242bab2fb1a97e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 023/359] fix: vector::swap did not compile

---
 include/daw/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index ea340ea..22b0a75 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -926,7 +926,7 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
+			si_impl::swap_allocator( alloc( ), other.alloc( ),
 			                std::bool_constant<
 			                  alloc_traits::propagate_on_container_swap::value>{ } );
 		}
-- 
2.43.0


From 5972a7432e24464dfb45b1ba0a320123ba8e24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:03 +0000
Subject: [PATCH 024/359] fix: vector::resize_and_overwrite ran destructors
 past the end when fewer elements than asked for were written, and leaked the
 removed ones when all were

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 22b0a75..560f9bf 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -841,7 +841,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -868,7 +868,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From 23c9fde5bad7757015dd5b0ec146a533f1e9e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:03 +0000
Subject: [PATCH 025/359] fix: block_append_from never consumed its input and
 did not end

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 560f9bf..37b14c5 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1317,10 +1317,10 @@ namespace daw {
 			v.resize_and_overwrite( cur_size + block_size,
 			                        [&]( T *ptr, std::size_t sz ) {
 				                        ptr += cur_size;
-				                        cur_size += block_size;
 				                        while( cur_size < sz and first != last ) {
-					                        *ptr = *first;
+					                        std::construct_at( ptr, *first );
 					                        ++ptr;
+					                        ++cur_size;
 					                        ++first;
 				                        }
 				                        return cur_size;
-- 
2.43.0


From 46b0d6c891128acb305ef4b4762de53e67a3bcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 026/359] fix: vector constructors leaked their storage and
 elements when constructing an element threw

---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 37b14c5..da2681d 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -142,7 +142,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -151,14 +152,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -168,7 +170,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -177,7 +179,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -186,7 +189,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -196,7 +199,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		  : vector( ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -210,7 +214,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -223,7 +227,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		  : vector( ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -238,7 +243,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -254,8 +259,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		      x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -266,7 +271,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -285,7 +290,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -305,7 +310,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From cf923bc1b61a076f6363941e2eee97e97249fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 027/359] fix: vector::append and resize kept some of the new
 elements when constructing one of them threw, although documented as strong

---
 include/daw/vector.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index da2681d..b61ca2f 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1013,7 +1013,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				pointer const old_last = m_end;
+				try {
+#endif
+					construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( old_last );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
@@ -1030,7 +1040,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n, const_reference x ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				pointer const old_last = m_end;
+				try {
+#endif
+					construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( old_last );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-- 
2.43.0


From b929b050fd8f6bebc346ec16da8d42b557977e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 028/359] fix: bounded_vector_t::has_room answered the opposite

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..5db0955 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count + size( ) <= N;
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From 15e47a87e363ad459cbc765abac9c3adf889fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 029/359] fix: bounded_vector_t::pop_front always threw

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 5db0955..a236883 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From 4cbc4b449236206187da77467422d4287c476575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 030/359] fix: bounded_vector_t::resize ignored elements popped
 from the front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a236883..a6c42d0 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -293,10 +293,10 @@ namespace daw {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From 81d50a676bbad59464988231a54f867bc25284b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 031/359] fix: bounded_vector_t::emplace_back of a default
 value wrote past the end after pop_front

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a6c42d0..72411b0 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -258,7 +258,7 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
 			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
-- 
2.43.0


From 4b00af60b89e53d93dede3e3b89ba9ffe364d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 032/359] fix: bounded_vector_t::erase returned a position past
 the next element and could not erase everything

---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 72411b0..4779bd3 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -325,14 +322,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From 0d67f2e8a97c41c9b74c50b9b863246c3dba090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 033/359] fix: bounded_vector_t::swap lost elements of the
 larger vector

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 4779bd3..6ce4c4e 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -338,8 +338,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From 6c1183cdc020c3a0fdf7ce784be26a8cc1781364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 034/359] fix: unique_array_t::at threw for every valid
 position and read past the end for the others

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 6c2ff48703f36a53abee4477d118ceca570861e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 035/359] fix: unique_array_t::empty was false for arrays of
 size zero

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..d19d7d2 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -93,7 +93,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From 2aeabf3cd348861a21082901a0a7998bee9e66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 036/359] fix: unique_array_t( size, args... ) did not compile

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index d19d7d2..4be4752 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -85,7 +85,7 @@ namespace daw {
 		  : m_data( create_values( sz ) )
 		  , m_size( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			std::fill_n( m_data, m_size, value_type{ args... } );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From 75f0264103c343e6dda2ab7b7dca51dbd32ec496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 037/359] fix: simple_array: const begin and end did not
 compile

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0


From e6b6779e05ca382762453b6029c8f7657956abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 038/359] fix: heap_array move constructor lost the end

---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 245669f..b70c286 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -62,7 +62,7 @@ namespace daw {
 
 		constexpr heap_array( heap_array &&other ) noexcept
 		  : m_begin( daw::exchange( other.m_begin, nullptr ) )
-		  , m_end( daw::exchange( other.m_begin, nullptr ) )
+		  , m_end( daw::exchange( other.m_end, nullptr ) )
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
-- 
2.43.0


From 270fba09777975341a1ed7b5d06bc46a6f37cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 039/359] fix: heap_array move assignment leaked

---
 include/daw/deprecated/daw_heap_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index b70c286..af2b491 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -66,6 +66,10 @@ namespace daw {
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
+			if( this == &rhs ) {
+				return *this;
+			}
+			clear( );
 			m_begin = daw::exchange( rhs.m_begin, nullptr );
 			m_end = daw::exchange( rhs.m_end, nullptr );
 			m_size = daw::exchange( rhs.m_size, 0ULL );
-- 
2.43.0


From 20253113653cf2aee8ce53163ea2d30e63e7fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 040/359] fix: heap_array copies had no room for the sentinel
 that find_first_of writes

---
 include/daw/deprecated/daw_heap_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index af2b491..66f2e92 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -77,7 +77,7 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size ) )
+		  : m_begin( create_value( other.m_size + 1 ) )
 		  , m_end( m_begin + other.m_size )
 		  , m_size( other.m_size ) {
 
@@ -85,7 +85,7 @@ namespace daw {
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size );
+			T *tmp = create_value( rhs.m_size + 1 );
 			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
 			std::size_t tmp_sz = rhs.m_size;
 			clear( );
@@ -103,7 +103,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size ) )
+		  : m_begin( create_value( Size + 1 ) )
 		  , m_end( m_begin + Size )
 		  , m_size( Size ) {
 
-- 
2.43.0


From e1de285f3814e83a5eecd5798e30fcf883a99269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 041/359] fix: heap_array::operator bool was inverted

---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 66f2e92..1da4b15 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -128,7 +128,7 @@ namespace daw {
 		}
 
 		explicit constexpr operator bool( ) const noexcept {
-			return nullptr == m_begin;
+			return nullptr != m_begin;
 		}
 
 		constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 7467a71213046d6c25b8254dd748e76d82a77df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 042/359] fix: fixed_array freed its storage twice after clear

---
 include/daw/deprecated/daw_fixed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_array.h b/include/daw/deprecated/daw_fixed_array.h
index 0177587..dcedaf1 100644
--- a/include/daw/deprecated/daw_fixed_array.h
+++ b/include/daw/deprecated/daw_fixed_array.h
@@ -139,7 +139,7 @@ namespace daw {
 		}
 
 		void clear( ) {
-			delete[] m_data;
+			delete[] daw::exchange( m_data, nullptr );
 			m_size = 0;
 		}
 
-- 
2.43.0


From 6f33de0f25f4ba378504abc419ec1a40c9dac9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:02 +0000
Subject: [PATCH 043/359] fix: carray reverse iteration skipped the last
 element and read before the first

---
 include/daw/deprecated/daw_carray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_carray.h b/include/daw/deprecated/daw_carray.h
index 9c5aa09..8446693 100644
--- a/include/daw/deprecated/daw_carray.h
+++ b/include/daw/deprecated/daw_carray.h
@@ -151,32 +151,32 @@ namespace daw {
 
 		[[nodiscard]] constexpr auto rbegin( ) noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto rbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call rbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto crbegin( ) const noexcept {
 			static_assert( N > 0, "Cannot call crbegin on empty array" );
-			return make_reverse_iterator( &ptr( )[N - 1] );
+			return make_reverse_iterator( ptr( ) + N );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr auto rend( ) const noexcept {
 			static_assert( N > 0, "Cannot call rend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr auto crend( ) const noexcept {
 			static_assert( N > 0, "Cannot call crend on empty array" );
-			return make_reverse_iterator( ptr( ) - 1 );
+			return make_reverse_iterator( ptr( ) );
 		}
 
 		[[nodiscard]] constexpr reference front( ) noexcept {
-- 
2.43.0


From 163f04314c35609d3a09ae83f9457ebbdf05c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 044/359] fix: simple_array deduction from lvalues did not
 compile

---
 include/daw/daw_simple_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index fe5136a..f95ba93 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -135,5 +135,5 @@ namespace daw {
 	};
 
 	template<typename T, typename... Ts>
-	simple_array( T &&, Ts &&... ) -> simple_array<T, sizeof...( Ts ) + 1>;
+	simple_array( T, Ts... ) -> simple_array<T, sizeof...( Ts ) + 1>;
 } // namespace daw
-- 
2.43.0


From 1a05dc7b4fbef26695310b365393f482e6a04ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:55 +0000
Subject: [PATCH 045/359] fix: swap_ranges did not compile

---
 include/daw/daw_swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 65f24fe..012f69d 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -80,7 +80,7 @@ namespace daw {
 	  ForwardIterator2 first2 ) noexcept( noexcept( daw::iter_swap( first1,
 	                                                                first2 ) ) ) {
 		while( first1 != last1 ) {
-			daw::iter_swap( *first1, *first2 );
+			daw::iter_swap( first1, first2 );
 			++first1;
 			++first2;
 		}
-- 
2.43.0


From 791ea476c720395d00130747266aa471247ac63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 046/359] fix: hash_set_t::erase did not compile, unlinked
 colliding keys and reported absent keys as erased

---
 include/daw/daw_hash_set.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..b48d231 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -72,10 +72,21 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			// Close the gap so that keys stored further along remain reachable
+			std::size_t const sz = m_indices.size( );
+			std::size_t gap = *index;
+			for( std::size_t n = ( gap + 1U ) % sz; n != *index and m_indices[n];
+			     n = ( n + 1U ) % sz ) {
+				std::size_t const home = scale_hash( Hash{ }( *m_indices[n] ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - gap ) % sz ) {
+					m_indices[gap] = std::move( m_indices[n] );
+					gap = n;
+				}
+			}
+			m_indices[gap] = std::nullopt;
 			return index;
 		}
 
-- 
2.43.0


From 6b71963c07c0d712d15011b0bc53fd1845180516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 047/359] fix: hash_set_t::size did not compile

---
 include/daw/daw_hash_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index b48d231..84753d0 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -110,8 +110,8 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t init, auto const &opt ) {
+				                                   return init + ( opt.has_value( ) ? 1U : 0U );
 			                                   } );
 		}
 	};
-- 
2.43.0


From 4ab72c5e9797499484e16f7035fd509a6936b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 048/359] fix: hash_set_t of capacity zero divided by zero

---
 include/daw/daw_hash_set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 84753d0..6a543e8 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -34,6 +34,9 @@ namespace daw {
 
 		[[nodiscard]] std::optional<std::size_t>
 		find_index( std::uint64_t hash, Key const &key ) const {
+			if( m_indices.empty( ) ) {
+				return { };
+			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
 			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-- 
2.43.0


From 5863fc9a9ac9fd3ae30d46ec4a1eb90c3ef05107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 049/359] fix: bounded_hash_map iterators were not assignable

---
 include/daw/deprecated/daw_bounded_hash_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..ee318dc 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -76,8 +76,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		bounded_hash_map_item_t<Key, Value> const *const m_first;
-		bounded_hash_map_item_t<Key, Value> const *const m_last;
+		bounded_hash_map_item_t<Key, Value> const *m_first;
+		bounded_hash_map_item_t<Key, Value> const *m_last;
 		bounded_hash_map_item_t<Key, Value> const *m_position;
 
 	public:
@@ -159,8 +159,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		bounded_hash_map_item_t<Key, Value> const *const m_first;
-		bounded_hash_map_item_t<Key, Value> const *const m_last;
+		bounded_hash_map_item_t<Key, Value> const *m_first;
+		bounded_hash_map_item_t<Key, Value> const *m_last;
 		bounded_hash_map_item_t<Key, Value> *m_position;
 
 	public:
-- 
2.43.0


From c43f2d256abcc13773700b5b0867408ba9454f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 050/359] fix: bounded_hash_map::find returned an iterator to
 an empty slot for absent keys

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index ee318dc..38e2e0f 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -516,7 +516,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -525,7 +525,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From e19055cf3afa04084fcfe883ba6494cfe8c0f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 051/359] fix: bounded_hash_map::erase unlinked colliding keys

---
 include/daw/deprecated/daw_bounded_hash_map.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 38e2e0f..fcfba78 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -534,9 +534,21 @@ namespace daw {
 
 		constexpr void erase( Key const &key ) {
 			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			if( not idx or not m_data[*idx] ) {
+				return;
+			}
+			// Close the gap so that keys stored further along remain reachable
+			size_type const sz = capacity( );
+			size_type gap = *idx;
+			for( size_type n = ( gap + 1U ) % sz; n != *idx and m_data[n];
+			     n = ( n + 1U ) % sz ) {
+				size_type const home = scale_hash( Hash{ }( m_data[n].kv.key ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - gap ) % sz ) {
+					m_data[gap] = std::move( m_data[n] );
+					gap = n;
+				}
 			}
+			m_data[gap] = bounded_hash_map_item_t<Key, Value>( );
 		}
 	};
 	template<typename Key, typename Value, typename Hash = std::hash<Key>,
-- 
2.43.0


From 61b1ccf988df9f37c6479eebc17a2dbcf8f3a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 052/359] fix: bounded_hash_map::empty did not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index fcfba78..b615720 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -468,7 +468,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return value.has_value;
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 4c000076cf6fa2561a6d47ed3da80046504604e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 053/359] fix: bounded_hash_set iterators were not assignable

---
 include/daw/deprecated/daw_bounded_hash_set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..17c562f 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -53,8 +53,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		set_node_t<Key> const *const m_first;
-		set_node_t<Key> const *const m_last;
+		set_node_t<Key> const *m_first;
+		set_node_t<Key> const *m_last;
 		set_node_t<Key> const *m_position;
 
 	public:
@@ -137,8 +137,8 @@ namespace daw {
 		using iterator_category = std::bidirectional_iterator_tag;
 
 	private:
-		set_node_t<Key> const *const m_first;
-		set_node_t<Key> const *const m_last;
+		set_node_t<Key> const *m_first;
+		set_node_t<Key> const *m_last;
 		set_node_t<Key> *m_position;
 
 	public:
-- 
2.43.0


From e2ea3adc01238b15df6c9562f8d2b3c3cc35e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 054/359] fix: bounded_hash_set iterators read past the end of
 the table

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 17c562f..b068c10 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( !m_position->has_value and m_position > m_first ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From dfd0922a6f0a56e86627eab88f013d43db9be960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 055/359] fix: bounded_hash_set_t::erase unlinked colliding
 keys and reported absent keys as erased

---
 include/daw/deprecated/daw_bounded_hash_set.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index b068c10..b8f4bf9 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -366,11 +366,23 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or !m_data[*index].has_value ) {
 				return { };
 			}
-			// m_data[*index].key = Key{};
-			m_data[*index].has_value = false;
+			// Close the gap so that keys stored further along remain reachable
+			size_type const sz = m_data.size( );
+			size_type gap = *index;
+			for( size_type n = ( gap + 1U ) % sz;
+			     n != *index and m_data[n].has_value;
+			     n = ( n + 1U ) % sz ) {
+				size_type const home = scale_hash( hasher{ }( m_data[n].key ), sz );
+				if( ( n + sz - home ) % sz >= ( n + sz - gap ) % sz ) {
+					m_data[gap].key = std::move( m_data[n].key );
+					gap = n;
+				}
+			}
+			// m_data[gap].key = Key{};
+			m_data[gap].has_value = false;
 			return *index;
 		}
 
-- 
2.43.0


From a28f67eccdb1be21a0583b4d04d0e1ef962a3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 056/359] fix: bounded_hash_set_t::size did not compile

---
 include/daw/deprecated/daw_bounded_hash_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index b8f4bf9..96a0eb2 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -402,8 +402,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ 0 }, []( size_type init, auto const &opt ) {
+				  return init + ( opt.has_value ? 1U : 0U );
 			  } );
 		}
 
-- 
2.43.0


From 61c85a729f5a1c9a3fbacbb00681d1a961ff593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 057/359] fix: bounded_hash_set_t::find returned an iterator to
 an empty slot for absent keys

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 96a0eb2..04510d3 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -462,15 +462,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From d6b5903885cd860a74e5f47d3b0856f46f313b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 058/359] fix: ordered_map reverse iteration did not compile

---
 include/daw/deprecated/daw_ordered_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..5d360fd 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
-- 
2.43.0


From f410a2eb4bf1885e9ee2579384a0c335339bdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 059/359] fix: ordered_map range and initializer_list
 constructors did not compile

---
 include/daw/deprecated/daw_ordered_map.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 5d360fd..b284af9 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -235,11 +235,11 @@ namespace daw {
 		                       InputIterator last,
 		                       key_compare const &comp = key_compare{ },
 		                       allocator_type const &alloc = allocator_type{ } )
-		  : m_compare( comp )
-		  , m_values( alloc ) {
+		  : m_values( alloc )
+		  , m_compare( comp ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( std::get<0>( *first ) ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -249,11 +249,11 @@ namespace daw {
 		template<typename InputIterator>
 		constexpr ordered_map( InputIterator first,
 		                       InputIterator last,
-		                       allocator_type const &alloc = allocator_type{ } )
+		                       allocator_type const &alloc )
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( std::get<0>( *first ) ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -267,7 +267,7 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
@@ -278,7 +278,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
-- 
2.43.0


From 15a17c4fe82d09a012053d2164bc44a0aa5cba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 060/359] fix: default initialized fixed_lookup read
 indeterminate hashes

---
 include/daw/deprecated/daw_fixed_lookup.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index 88e1838..ce30236 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -68,8 +68,8 @@ namespace daw {
 		using const_reference = value_t const &;
 
 	private:
-		std::array<hash_value_t, N> m_hashes;
-		std::array<value_t, N> m_values;
+		std::array<hash_value_t, N> m_hashes{ };
+		std::array<value_t, N> m_values{ };
 
 	public:
 		static constexpr hash_value_t capacity( ) noexcept {
-- 
2.43.0


From 615c6dc488a460047d547b0c53e7ff9f54b84e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 061/359] fix: make_fixed_lookup ignored HashSize

---
 include/daw/deprecated/daw_fixed_lookup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index ce30236..f4f0ea0 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -195,7 +195,7 @@ namespace daw {
 
 	template<typename Value, size_t HashSize = sizeof( size_t ), typename... Keys>
 	constexpr auto make_fixed_lookup( Keys &&...keys ) noexcept {
-		fixed_lookup<Value, sizeof...( Keys )> result{ };
+		fixed_lookup<Value, sizeof...( Keys ), HashSize> result{ };
 		auto const lst = { ( result[keys] = Value{ }, 0 )... };
 		Unused( lst );
 		return result;
-- 
2.43.0


From d2c373dd78552aced098ae3f63129ce0cfa58168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:36 +0000
Subject: [PATCH 062/359] fix: bounded_hash_map::try_get did not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index b615720..80149de 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -437,7 +437,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
-- 
2.43.0


From df5a3fe0f882d6adffe7064fa4fe1ec9470f5fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:50 +0000
Subject: [PATCH 063/359] fix: fixed_lookup with 4 byte hashes did not compile

---
 include/daw/deprecated/daw_fixed_lookup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index f4f0ea0..ee68e21 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -134,7 +134,7 @@ namespace daw {
 					return lookup_result_t{ n, false };
 				}
 			}
-			return lookup_result_t{ m_hashes.size( ), false };
+			return lookup_result_t{ capacity( ), false };
 		}
 
 	public:
-- 
2.43.0


From 81bbb67d9fa31b684d3cb1ff8bbb66231ca2954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 064/359] fix: perfect_hash_table claimed two slots for single
 item buckets and could run out of slots

---
 include/daw/daw_min_perfect_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..c095999 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -278,6 +278,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From 80176424a2e3e793b83f0fda4289c81032c91376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 065/359] fix: perfect_hash_table construction never ended for
 keys that only differ in high bits

---
 include/daw/daw_min_perfect_hash.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index c095999..791c5c0 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -108,8 +108,13 @@ namespace daw {
 
 			uintmax_t const s = seed + 1;
 			uintmax_t const h = hash;
-			return static_cast<hash_result>(
-			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			uintmax_t r = s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) );
+			// Only the low bits are used to select a slot.  Let all the bits of the
+			// hash influence them or some keys can never be separated
+			r ^= r >> 33ULL;
+			r *= 0xff51afd7ed558ccdULL;
+			r ^= r >> 33ULL;
+			return static_cast<hash_result>( r );
 		}
 	} // namespace mph_impl
 
-- 
2.43.0


From beadc93fe3a285952e0617d2de0e35300a49c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 066/359] fix: perfect_hash_table reported an absent default
 constructed key as present

---
 include/daw/daw_min_perfect_hash.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 791c5c0..013b75d 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -188,6 +188,12 @@ namespace daw {
 				                         find_salt_for_bucket( bucket, slots_claimed );
 				                         return false;
 			                         } );
+			// A free slot must not compare equal to any key that can map to it
+			for( size_type n = 0; first != last and n < m_data_size; ++n ) {
+				if( not slots_claimed[n] ) {
+					m_keys[n] = first->first;
+				}
+			}
 		}
 
 		explicit constexpr perfect_hash_table(
-- 
2.43.0


From 380b142007ca337537aff26ea25ca4713c4e84e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 067/359] fix: perfect_hash_table only accepted pointers as
 iterators

---
 include/daw/daw_min_perfect_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 013b75d..d2faa2a 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -297,7 +297,7 @@ namespace daw {
 
 				auto const success = daw::algorithm::all_of(
 				  bucket.items.begin( ), bucket.items.end( ),
-				  [&]( auto const *const item ) -> bool {
+				  [&]( auto const &item ) -> bool {
 					  hash_result const slot_wanted =
 					    scale_hash( call_hash( item->first, salt ) );
 					  if( slots_claimed[slot_wanted] or
-- 
2.43.0


From 90e7be9e76a67886433c95e88fd6dd0d3d317c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 068/359] fix: static_hash_t default constructor did not
 compile

---
 include/daw/static_hash_table.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..b0c57b3 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -108,9 +108,7 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
-- 
2.43.0


From c4abd44ac3d5256338494b3509ca740634408629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 069/359] fix: static_hash_t const element access did not
 compile

---
 include/daw/static_hash_table.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index b0c57b3..0e92e08 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -156,7 +156,6 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
 			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
-- 
2.43.0


From c20b63ed81c50b828f03d7a12f62ef3cc624a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:00 +0000
Subject: [PATCH 070/359] fix: static_hash_t::find returned the index of an
 empty slot for absent keys

---
 include/daw/static_hash_table.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 0e92e08..8a72f30 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -134,7 +134,11 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr std::size_t find( K const &key ) const {
 			auto const hash = hash_fn( key );
-			return find_impl( hash );
+			auto const pos = find_impl( hash );
+			if( pos < Capacity and m_values[pos].hash_value != hash ) {
+				return Capacity;
+			}
+			return pos;
 		}
 
 		template<typename K>
-- 
2.43.0


From 9ff16d266bf8e9f0769c2ec8d03a15b7a0243b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:09 +0000
Subject: [PATCH 071/359] fix: perfect_hash_table construction did not end in
 practice when all keys fell into one bucket

---
 include/daw/daw_min_perfect_hash.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index d2faa2a..c3134d3 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -114,6 +114,8 @@ namespace daw {
 			r ^= r >> 33ULL;
 			r *= 0xff51afd7ed558ccdULL;
 			r ^= r >> 33ULL;
+			r *= 0xc4ceb9fe1a85ec53ULL;
+			r ^= r >> 33ULL;
 			return static_cast<hash_result>( r );
 		}
 	} // namespace mph_impl
@@ -169,7 +171,7 @@ namespace daw {
 			                      } );
 
 			for( auto it = first; it != last; ++it ) {
-				auto const bucket = scale_hash<m_num_buckets>( call_hash( it->first ) );
+				auto const bucket = scale_hash<m_num_buckets>( call_hash( it->first, 0 ) );
 				buckets[bucket].items.push_back( it );
 			}
 
@@ -325,7 +327,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type find_data_index( Key const &key ) const {
 			size_type const hash = call_hash( key );
-			auto const salt = m_salts[scale_hash<m_num_buckets>( hash )];
+			auto const salt =
+			  m_salts[scale_hash<m_num_buckets>( call_hash( key, 0 ) )];
 
 			if( salt < 0 ) {
 				return static_cast<size_type>( ( -salt ) - 1 );
-- 
2.43.0


From a1505674101d60508dedec9d3e1eec5d7f74435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 072/359] fix: unique_ptr operator<= was the same as operator>=

---
 include/daw/daw_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 436bddc204b91b9a63e0d8ed2c776bf9f5be15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 073/359] fix: maybe_unique_ptr operator<= was the same as
 operator>=

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a209b47 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -295,7 +295,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 46b18c5aeef42ed9918dff0a3b8eeec42aa8c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 074/359] fix: moving or swapping a unique_ptr left its deleter
 behind

---
 include/daw/daw_unique_ptr.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index ea9e72c..a4ca7af 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -130,7 +130,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( static_cast<Deleter &&>( other ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<
 		  typename U, typename D,
@@ -147,6 +148,9 @@ namespace daw {
 			if( this != &rhs ) {
 				reset( );
 				m_ptr = rhs.release( );
+				if constexpr( std::is_move_assignable_v<Deleter> ) {
+					get_deleter( ) = static_cast<Deleter &&>( rhs );
+				}
 			}
 			return *this;
 		}
@@ -227,6 +231,9 @@ namespace daw {
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
 			swap( m_ptr, other.m_ptr );
+			if constexpr( std::is_swappable_v<Deleter> ) {
+				swap( get_deleter( ), other.get_deleter( ) );
+			}
 		}
 
 		template<typename F>
@@ -287,7 +294,8 @@ namespace daw {
 		constexpr unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr unique_ptr( unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) ) {}
+		  : Deleter( static_cast<Deleter &&>( other ) )
+		  , m_ptr( other.release( ) ) {}
 
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
@@ -302,6 +310,9 @@ namespace daw {
 			if( this != &rhs ) {
 				reset( );
 				m_ptr = rhs.release( );
+				if constexpr( std::is_move_assignable_v<Deleter> ) {
+					get_deleter( ) = static_cast<Deleter &&>( rhs );
+				}
 			}
 			return *this;
 		}
@@ -365,6 +376,9 @@ namespace daw {
 		constexpr void swap( unique_ptr &other ) noexcept {
 			using std::swap;
 			swap( m_ptr, other.m_ptr );
+			if constexpr( std::is_swappable_v<Deleter> ) {
+				swap( get_deleter( ), other.get_deleter( ) );
+			}
 		}
 
 		constexpr reference operator[]( std::size_t index ) const noexcept {
-- 
2.43.0


From c20d164d56b4e60ad77bd544fe87908288c12bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 075/359] fix: converting move assignment of unique_ptr did not
 compile

---
 include/daw/daw_unique_ptr.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index a4ca7af..dd99109 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -161,10 +161,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
@@ -323,10 +321,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-			}
+			reset( );
+			m_ptr = rhs.release( );
 			return *this;
 		}
 
-- 
2.43.0


From 0c612e6d508cd5215bcb05b079bdba44e5612eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 076/359] fix: maybe_unique_ptr with a given deleter did not
 compile as unique_ptr could not take one

---
 include/daw/daw_unique_ptr.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index dd99109..b23b8eb 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -118,6 +118,12 @@ namespace daw {
 		constexpr unique_ptr( pointer p ) noexcept
 		  : m_ptr( p ) {}
 
+		template<typename D, std::enable_if_t<std::is_constructible_v<Deleter, D>,
+		                                      std::nullptr_t> = nullptr>
+		constexpr unique_ptr( pointer p, D &&deleter ) noexcept
+		  : Deleter( DAW_FWD( deleter ) )
+		  , m_ptr( p ) {}
+
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
 		constexpr unique_ptr( U *p ) noexcept
@@ -280,6 +286,12 @@ namespace daw {
 		constexpr unique_ptr( pointer p ) noexcept
 		  : m_ptr( p ) {}
 
+		template<typename D, std::enable_if_t<std::is_constructible_v<Deleter, D>,
+		                                      std::nullptr_t> = nullptr>
+		constexpr unique_ptr( pointer p, D &&deleter ) noexcept
+		  : Deleter( DAW_FWD( deleter ) )
+		  , m_ptr( p ) {}
+
 		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
 		                                      std::nullptr_t> = nullptr>
 		constexpr unique_ptr( U *p ) noexcept
-- 
2.43.0


From fec3a7cfcd866f17fadc74aa8b26730eca365e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 077/359] fix: moving a maybe_unique_ptr that does not own its
 pointee made the target own it

---
 include/daw/daw_maybe_unique_ptr.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a209b47..34ae28d 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,13 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
-		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -99,7 +98,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = std::move( rhs.m_ptr );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
-- 
2.43.0


From 65aeafe2dc182c311c867e4e29fe8e4ae60930b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 078/359] fix: maybe_unique_ptr::reset( p ) deleted p when the
 previous pointee was owned

---
 include/daw/daw_maybe_unique_ptr.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 34ae28d..b1bb605 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -165,9 +165,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
+			if( not m_owned ) {
 				(void)m_ptr.release( );
 			}
 			m_ptr.reset( std::move( p ) );
-- 
2.43.0


From eee608a969140807ba3f1163dce6b80d85acf615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 079/359] fix: converting assignment to a maybe_unique_ptr
 deleted a pointee it did not own, or did not compile

---
 include/daw/daw_maybe_unique_ptr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index b1bb605..768de33 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -111,6 +111,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
@@ -122,8 +123,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
 		}
 
-- 
2.43.0


From 4826d3aab96b582d040228c0e1929f8051e6f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 080/359] fix: converting a unique_ptr to a maybe_unique_ptr
 did not keep the deleter in use

---
 include/daw/daw_maybe_unique_ptr.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 768de33..9184eb7 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -88,8 +88,7 @@ namespace daw {
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( unique_ptr<U, D> &&other ) noexcept
-		  : Deleter( std::move( other ).get_deleter( ) )
-		  , m_ptr( other.release( ) ) {
+		  : m_ptr( std::move( other ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-- 
2.43.0


From b4432e79e6b348bc000a6c980e1b313f0d7c721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 081/359] fix: copying an empty value_ptr dereferenced null

---
 include/daw/daw_value_ptr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..e472493 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,8 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value ? std::make_unique<value_type>( *other.m_value )
+		                           : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
-- 
2.43.0


From eab844e2fb85048e6c2440db6376eedcac8fce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 082/359] fix: copy assignment of value_ptr did not compile

---
 include/daw/daw_value_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index e472493..7d76fda 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -89,7 +89,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
-- 
2.43.0


From 6b9d4c0babf618c2aad15f48a2a4f7d5aeebf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 083/359] fix: assigning a value to an empty value_ptr
 dereferenced null

---
 include/daw/daw_value_ptr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 7d76fda..93f54d4 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -123,7 +123,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From f2f23f487aa31bec0c5b92a4d5d6e07bf99c927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 084/359] fix: value_ptr::release did not compile

---
 include/daw/daw_value_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 93f54d4..50c1423 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -149,7 +149,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
-- 
2.43.0


From 1a3c7b5cf991cf35183b6da4fa54e63496516059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 085/359] fix: value_ptr operator bool could not be used on a
 const object

---
 include/daw/daw_value_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 50c1423..40a3677 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -188,7 +188,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From 8677a2e1e86832aff06cd7d46d2e0a62a4197dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:45 +0000
Subject: [PATCH 086/359] fix: prop_const_ptr post increment and decrement
 returned a reference to a local

---
 include/daw/daw_prop_const_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..d2988af 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
-- 
2.43.0


From 7d8171603d7d44454a3e412515a4d090e5ebe244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 087/359] fix: prop_const_ptr operator+ on a const object did
 not compile

---
 include/daw/daw_prop_const_ptr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index d2988af..370c94f 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<std::add_const_t<value_type>>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From e2a35071eb004046865d4f20eee1190edc39e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 088/359] fix: copiable_unique_ptr ordering and comparison with
 nullptr did not compile

---
 .../daw/deprecated/daw_copiable_unique_ptr.h  | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 6e410af..e23c122 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -144,13 +144,13 @@ namespace daw {
 		return lhs.get( ) == rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return !lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( std::nullptr_t,
 	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 		return !rhs;
@@ -163,14 +163,14 @@ namespace daw {
 		return lhs.get( ) != rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return static_cast<bool>( lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator!=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -181,24 +181,24 @@ namespace daw {
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 		using CT =
-		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::pointer,
-		                     typename copiable_unique_ptr<T2, D2>::pointer>;
-		return std::less<CT>( lhs.get( ), rhs.get( ) );
+		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::const_pointer,
+		                     typename copiable_unique_ptr<T2, D2>::const_pointer>;
+		return std::less<CT>{ }( lhs.get( ), rhs.get( ) );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>( lhs.get( ),
-		                                                                 nullptr );
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
+		  lhs.get( ), nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( std::nullptr_t,
 	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>(
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
 		  nullptr, rhs.get( ) );
 	}
 
@@ -208,14 +208,14 @@ namespace daw {
 		return !( rhs < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( nullptr < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator<=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -228,14 +228,14 @@ namespace daw {
 		return rhs < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
 		return nullptr < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>( std::nullptr_t,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
@@ -248,14 +248,14 @@ namespace daw {
 		return !( lhs < rhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( lhs < nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T2, typename D2>
 	constexpr bool operator>=( std::nullptr_t,
 	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 
-- 
2.43.0


From b47c3f68d00fe887ab72c4cc59ceee561f9d80ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 089/359] fix: copying to or from a moved from heap_value
 dereferenced null

---
 include/daw/deprecated/daw_heap_value.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1044e4f..d18e3e5 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -37,11 +37,18 @@ namespace daw {
 		heap_value &operator=( heap_value && ) = default;
 
 		heap_value( heap_value const &other )
-		  : m_value{ std::make_unique<value_t>( *other.m_value ) } {}
+		  : m_value{ other.m_value ? std::make_unique<value_t>( *other.m_value )
+		                           : nullptr } {}
 
 		heap_value &operator=( heap_value const &rhs ) {
 			if( this != &rhs ) {
-				*m_value = *rhs.m_value;
+				if( not rhs.m_value ) {
+					m_value.reset( );
+				} else if( not m_value ) {
+					m_value = std::make_unique<value_t>( *rhs.m_value );
+				} else {
+					*m_value = *rhs.m_value;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 2a22021785c1b5e94d8c00a39bb4bdf4fb4b7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 090/359] fix: copying a heap_value lvalue did not compile as
 the forwarding constructors took it

---
 include/daw/deprecated/daw_heap_value.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index d18e3e5..731fc6a 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -56,14 +56,14 @@ namespace daw {
 		// Make this less perfect so that we can still do copy/move construction
 		template<
 		  typename Arg,
-		  typename = std::enable_if_t<daw::traits::not_self<Arg, value_t>( )>>
+		  typename = std::enable_if_t<daw::traits::not_self<Arg, heap_value>( )>>
 		heap_value( Arg &&arg )
 		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ) ) } {}
 
-		template<typename Arg, typename... Args>
-		heap_value( Arg &&arg, Args &&...args )
-		  : m_value{
-		      std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( args )... ) } {}
+		template<typename Arg, typename Arg2, typename... Args>
+		heap_value( Arg &&arg, Arg2 &&arg2, Args &&...args )
+		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( arg2 ),
+		                                        DAW_FWD( args )... ) } {}
 
 		void swap( heap_value &rhs ) noexcept {
 			daw::cswap( m_value, rhs.m_value );
-- 
2.43.0


From 3709afb6b68e21c68be917ae71c41a911e0e2b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:15 +0000
Subject: [PATCH 091/359] fix: heap_value call operator used operator[] and
 operator[] returned a copy

---
 include/daw/deprecated/daw_heap_value.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 731fc6a..ea65d17 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -102,23 +102,23 @@ namespace daw {
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) {
+		decltype( auto ) operator[]( Args &&...args ) {
 			return m_value->operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator[]( Args &&...args ) const {
+		decltype( auto ) operator[]( Args &&...args ) const {
 			return m_value->operator[]( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) {
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
-		auto operator( )( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+		decltype( auto ) operator( )( Args &&...args ) const {
+			return m_value->operator( )( DAW_FWD( args )... );
 		}
 	};
 
-- 
2.43.0


From f695a34f42a93dad7bb7b3e19a78f4b6bb5b5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 092/359] fix: converting move assignment of unique_ptr left
 its deleter behind

---
 include/daw/daw_unique_ptr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index b23b8eb..7b29ebb 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -169,6 +169,9 @@ namespace daw {
 			               "destructor, and U being a child of T" );
 			reset( );
 			m_ptr = rhs.release( );
+			if constexpr( std::is_move_assignable_v<Deleter> ) {
+				get_deleter( ) = std::move( rhs.get_deleter( ) );
+			}
 			return *this;
 		}
 
@@ -335,6 +338,9 @@ namespace daw {
 			               "destructor, and U being a child of T" );
 			reset( );
 			m_ptr = rhs.release( );
+			if constexpr( std::is_move_assignable_v<Deleter> ) {
+				get_deleter( ) = std::move( rhs.get_deleter( ) );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 31ecae4e675cf5f2c3bcd9dae06a6f69879d25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 093/359] fix: rc_ptr::reset on a shared object kept pointing
 to it, so the count went down twice

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From 7c372a3b815a93e9d1843d0093f2d14f537865d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:37 +0000
Subject: [PATCH 094/359] fix: converting an observer_ptr to one of a base type
 did not compile

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From 647dfa9fdf8275c3793ecbdf4776f0b02bf2419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 095/359] fix: optional operator-> did not compile

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From 387c3f85716fc68044b39e36d7ce693bf8da5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 096/359] fix: nullopt >= optional was true for engaged
 optionals only

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..223c5d3 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
-- 
2.43.0


From 76ab5a4a7ef84df5e50ab2afd3836668c92e5a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 097/359] fix: value >= optional compared the wrong way round

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 223c5d3..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From 73e69108fd92e3ccf54dfcd376a99e1b0affa953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 098/359] fix: union_pair_t assigned to a member that was not
 alive instead of constructing it

---
 include/daw/daw_union_pair.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..b8b5733 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -17,6 +17,8 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
+#include <new>
 #include <utility>
 
 namespace daw {
@@ -76,16 +78,26 @@ namespace daw {
 			}
 		}
 
+		template<typename T, typename Arg>
+		static constexpr void construct( T *ptr, Arg &&arg ) {
+#if defined( __cpp_lib_constexpr_dynamic_alloc )
+			(void)std::construct_at( ptr, DAW_FWD( arg ) );
+#else
+			(void)( ::new( static_cast<void *>( ptr ) ) T( DAW_FWD( arg ) ) );
+#endif
+		}
+
 		template<typename T>
 		constexpr void store_type0( T &&value ) {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			construct( &value0, DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +106,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			construct( &value1, DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From 8aa445d28a56620959a6da6e24b1ea46e2dded9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 099/359] fix: uninitialized_storage::raw_data did not compile

---
 include/daw/daw_uninitialized_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..b3bcd80 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -90,7 +90,7 @@ namespace daw {
 			ptr( )->~T( );
 		}
 
-		constexpr std::byte *raw_data( ) const noexcept {
+		constexpr std::byte const *raw_data( ) const noexcept {
 			return m_data;
 		}
 	};
-- 
2.43.0


From e8e618ad586a0747bc8d4fb100f6527e56cacc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 100/359] fix: expected_from_code with a result type dropped
 the result of the call

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From d9a31de0d7c75a04bfe950fa243d0c003849d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 101/359] fix: assigning a value to a checked_expected_t<void>
 kept the old exception

---
 include/daw/deprecated/daw_checked_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 527f937..7148353 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -245,9 +245,7 @@ namespace daw {
 		}
 		checked_expected_t &operator=( checked_expected_t const &rhs ) {
 			if( this != &rhs ) {
-				if( rhs.m_exception ) {
-					m_exception = rhs.m_exception;
-				}
+				m_exception = rhs.m_exception;
 				m_value = rhs.m_value;
 			}
 			return *this;
-- 
2.43.0


From 0b32b9ec29473d6a45c47ddf52d28a7e56d718c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 102/359] fix: copying a non-const checked_expected_t<void>
 always gave one with a value

---
 include/daw/deprecated/daw_checked_expected.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 7148353..13a2174 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -266,7 +266,10 @@ namespace daw {
 		checked_expected_t( ) noexcept
 		  : checked_expected_t{ false } {}
 
-		template<typename T>
+		template<typename T,
+		         std::enable_if_t<
+		           not std::is_same_v<daw::remove_cvref_t<T>, checked_expected_t>,
+		           std::nullptr_t> = nullptr>
 		checked_expected_t( T && ) noexcept
 		  : checked_expected_t{ true } {}
 
-- 
2.43.0


From 8796f742dbeb298bb9a2c3ba13ca0f9bfe4a3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 103/359] fix: assigning a derived value to an optional_poly
 sliced it

---
 include/daw/deprecated/daw_optional_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 0b3e997..ff559dc 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -117,7 +117,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( T const &value ) {
-			m_value.reset( new value_type{ value } );
+			m_value.reset( new T{ value } );
 			return *this;
 		}
 
-- 
2.43.0


From 27a1befe5bb7fd54d5c44883b7cf7ab62063389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 104/359] fix: converting move assignment of optional_poly did
 not compile

---
 include/daw/deprecated/daw_optional_poly.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index ff559dc..cfefdd9 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -106,9 +106,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( optional_poly<T> &&rhs ) {
-			if( this != static_cast<optional_poly *>( &rhs ) ) {
-				m_value.reset( rhs.m_value.release( ) );
-			}
+			m_value.reset( rhs.m_value.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From ef1774fcca143951fefa7417c3172906c71c7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 105/359] fix: optional_poly ordered two empty values as
 different

---
 include/daw/deprecated/daw_optional_poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index cfefdd9..5e4fd32 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -209,7 +209,7 @@ namespace daw {
 			}
 			return false;
 		}
-		return true;
+		return static_cast<bool>( rhs );
 	}
 
 	template<typename T>
@@ -245,7 +245,7 @@ namespace daw {
 			}
 			return true;
 		}
-		return false;
+		return not static_cast<bool>( rhs );
 	}
 
 } // namespace daw
-- 
2.43.0


From 19af91c9390cca21ba7969df2a2af965d789b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 106/359] fix: checked_expected_t from a temporary exception
 value did not compile

---
 include/daw/deprecated/daw_checked_expected.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 13a2174..bc35e2e 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -140,7 +140,10 @@ namespace daw {
 
 		// template<class Function, typename... Args, typename =
 		// std::enable_if_t<is_callable_v<Function, Args...>>>
-		template<class Function, typename... Args>
+		template<class Function,
+		         typename... Args,
+		         std::enable_if_t<std::is_invocable_v<Function, Args...>,
+		                          std::nullptr_t> = nullptr>
 		checked_expected_t( Function func, Args &&...args )
 		  : checked_expected_t{
 		      checked_expected_t::from_code( func, DAW_FWD( args )... ) } {}
-- 
2.43.0


From 6c94a82cd52ec033af7b0f0a043d8792744fe407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 107/359] fix: expected_t did not capture exceptions unless
 another header had detected that they are enabled

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..bbd7131 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From f001df777b6ca65a4b52d463ad0d48c331a987eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 108/359] fix: daw::function copies and moves its target with
 the target's own constructors instead of byte by byte

---
 include/daw/daw_stack_function.h | 39 +++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..20b2e95 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,16 +46,19 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&other ) {
+				other.ptr( )->move_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = rhs.m_data;
-				return *this;
+				return *this = function_storage( rhs );
 			}
 
 			function_storage &operator=( function_storage &&rhs ) noexcept {
@@ -63,7 +66,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -121,6 +124,9 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			// construct a copy of, or move from, the most derived object at location
+			virtual void copy_to( void *location ) const = 0;
+			virtual void move_to( void *location ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +142,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *location ) const override {
+				new( location ) empty_child( *this );
+			}
+
+			void move_to( void *location ) override {
+				new( location ) empty_child( *this );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +211,19 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *location ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( location ) function_child( m_func );
+				} else {
+					// A move only target cannot be copied
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_to( void *location ) override {
+				new( location ) function_child( std::move( m_func ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
-- 
2.43.0


From 97370aaffb96fb05995800d626e2619cea7f5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 109/359] fix: daw::function stores a copy of a target given as
 an lvalue, not a reference to it

---
 include/daw/daw_stack_function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 20b2e95..c5bf027 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -277,7 +277,8 @@ namespace daw {
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
 			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
+			                                     function_child<std::decay_t<Func>>,
+			                                     empty_child>(
 			  DAW_FWD( f ) );
 		}
 
-- 
2.43.0


From b40c0acc39a851737dfb0e5ea3559c0700b13b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 110/359] fix: daw::function can be copied from a function with
 a smaller buffer

---
 include/daw/daw_stack_function.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index c5bf027..e66fe8b 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -70,10 +70,16 @@ namespace daw {
 				return *this;
 			}
 
+			explicit function_storage( Base const &other ) {
+				other.copy_to( &m_data );
+			}
+
 			template<
 			  typename Func,
-			  std::enable_if_t<!std::is_same_v<std::decay_t<Func>, function_storage>,
-			                   std::nullptr_t> = nullptr>
+			  std::enable_if_t<
+			    daw::all_true_v<!std::is_same_v<std::decay_t<Func>, function_storage>,
+			                    !std::is_same_v<std::decay_t<Func>, Base>>,
+			    std::nullptr_t> = nullptr>
 			function_storage( Func &&f ) {
 				static_assert( sizeof( std::decay_t<Func> ) <= StorageSize );
 				store( DAW_FWD( f ) );
@@ -270,8 +276,12 @@ namespace daw {
 		template<typename Func>
 		using function_child = func_impl::function_child<Func, Result, FuncArgs...>;
 
-		func_impl::function_storage<MaxSize, function_base> m_storage =
-		  empty_child{ };
+		template<size_t, typename>
+		friend class function;
+
+		using storage_t = func_impl::function_storage<MaxSize, function_base>;
+
+		storage_t m_storage = empty_child{ };
 
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
@@ -299,7 +309,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function &operator=( function<N, Result( FuncArgs... )> const &other ) {
-			m_storage = *other.m_storage;
+			m_storage = storage_t( *other.m_storage );
 			return *this;
 		}
 
-- 
2.43.0


From d8b89e7286917fb1c92ce95a2c26b8b81acedf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 111/359] fix: function_view forwards reference arguments as
 they are

---
 include/daw/daw_function_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..8f4bfdd 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -41,19 +41,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -80,18 +80,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -111,7 +111,7 @@ namespace daw {
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
@@ -125,7 +125,7 @@ namespace daw {
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 3cd22864a4f4f655017c123e1b6e546edabd8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 112/359] fix: copying a non-const function_view copies it
 instead of referring to it

---
 include/daw/daw_function_view.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index 8f4bfdd..5e8c5f6 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -17,6 +17,7 @@
 #include <cstdio>
 #include <cstring>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -104,7 +105,11 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<function_view,
+		                              std::remove_cv_t<std::remove_reference_t<Func>>>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +123,11 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<function_view,
+		                              std::remove_cv_t<std::remove_reference_t<Func>>>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From 647dbe6e6ea17384c3d0fbf2066ffef711c3a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 113/359] fix: function_table_t::operator( ) passes allow_empty
 on

---
 include/daw/daw_function_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index ab42e89..35c3099 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -129,7 +129,7 @@ namespace daw {
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R operator( )( size_t idx, Args &&...args ) const {
-			return call( idx, DAW_FWD( args )... );
+			return call<allow_empty>( idx, DAW_FWD( args )... );
 		}
 
 		template<typename Value>
-- 
2.43.0


From 96c1e46ffe738f698871f8da4298f7e9def1f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 114/359] fix: include what daw_bind_front.h uses

---
 include/daw/daw_bind_front.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..5478296 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,8 +8,11 @@
 
 #pragma once
 
+#include "daw/daw_move.h"
+
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 namespace daw {
 	template<typename Function, typename... Params>
-- 
2.43.0


From 0f26fcda78fe7e12827e813ada93a7bf8a642046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 115/359] fix: include daw_ensure.h in daw_shared_function.h

---
 include/daw/daw_shared_function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
-- 
2.43.0


From 4492baff9fef789cdb3dbfe0d18c409e13ee712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 116/359] fix: shared_function moves its by-value target into
 the storage, so that move-only targets work

---
 include/daw/daw_shared_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index d81b79d..be5dac5 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -111,7 +111,7 @@ public:                                                                 \
                                                                               \
 	public:                                                                     \
 		explicit constexpr shared_function_storage( Fn fn )                       \
-		  : m_func{ DAW_FWD( fn ) } {}                                            \
+		  : m_func{ std::move( fn ) } {}                                          \
                                                                               \
 		constexpr R call( Params... params ) CallQuals                            \
 		  noexcept( IsNoExcept ) override {                                       \
-- 
2.43.0


From a52b9a8704575eb9f39a22a5519a3898ee0644bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 117/359] fix: poly_var::operator* refers to the stored object
 instead of a copy of its base

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 92fc298d590a8d5180245359ede46d1daf49ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 118/359] fix: const access to sbo_storage asserts for a local
 object and does not compile for an allocated one

---
 include/daw/daw_sbo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..148244b 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -46,11 +46,11 @@ namespace daw {
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
 			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<T *const *>( &data );
 			}
 		}
 
-- 
2.43.0


From b73686c6cd6f1f38eaa14605385608bdeda573c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 119/359] fix: sbo_storage does not put an object into its
 buffer that needs more alignment than the buffer has

---
 include/daw/daw_sbo.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 148244b..67d4c99 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -25,6 +25,11 @@ namespace daw {
 		static constexpr std::size_t storage_size =
 		  Size >= sizeof( void * ) ? Size : sizeof( void * );
 
+		// The object is stored in data, otherwise data has a pointer to it
+		template<typename T>
+		static constexpr bool is_local_v =
+		  sizeof( T ) <= storage_size and alignof( T ) <= Align;
+
 		daw::aligned_storage_t<storage_size, Align> data{ };
 
 		enum class engaged_types : std::uint8_t { none, local, allocated };
@@ -33,7 +38,7 @@ namespace daw {
 
 		template<typename T>
 		[[nodiscard]] T *get( ) {
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T *>( &data );
 			} else {
@@ -45,7 +50,7 @@ namespace daw {
 
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
-			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
+			if constexpr( is_local_v<AllocatedType> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
@@ -58,7 +63,7 @@ namespace daw {
 		         typename Allocator = std::allocator<std::remove_cv_t<T>>>
 		void deallocate( Allocator const &alloc = Allocator{ } ) {
 			static_assert( not std::is_array_v<T>, "Arrays unsupported" );
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				get<T>( )->~T( );
 			} else {
@@ -78,7 +83,7 @@ namespace daw {
 			using base_type = std::remove_cv_t<T>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
-			if constexpr( sizeof( base_type ) <= storage_size ) {
+			if constexpr( is_local_v<base_type> ) {
 				if constexpr( std::is_aggregate_v<base_type> ) {
 					auto *result = new( &data ) base_type{ DAW_FWD( value ) };
 					engaged = engaged_types::local;
-- 
2.43.0


From 7e9fa37db251ee3c6d706f818b0de57ac3427d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 120/359] fix: sbo_storage::allocate leaked when the
 constructor threw

---
 include/daw/daw_sbo.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 67d4c99..08e3a49 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -102,8 +102,18 @@ namespace daw {
 				// Store pointer from allocator in buffer
 				new( &data ) base_type_ptr{ ptr };
 				// Construct new value from passed value at location from allocator
+				struct release_t {
+					Allocator &allocator;
+					base_type_ptr ptr;
+					~release_t( ) {
+						if( ptr ) {
+							std::allocator_traits<Allocator>::deallocate( allocator, ptr, 1 );
+						}
+					}
+				} release{ allocator, ptr };
 				std::allocator_traits<Allocator>::construct( allocator, ptr,
 				                                             DAW_FWD( value ) );
+				release.ptr = nullptr;
 				engaged = engaged_types::allocated;
 				return ptr;
 			}
-- 
2.43.0


From 8f19798a6556a10f515dc9ffc1419bbcdf560421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 121/359] fix: sbo_storage::allocate accepts an lvalue

---
 include/daw/daw_sbo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 08e3a49..e03edf7 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -77,10 +77,10 @@ namespace daw {
 		}
 
 		template<typename T, typename Allocator = std::allocator<
-		                       std::remove_cv_t<std::remove_cv_t<T>>>>
-		std::remove_cv_t<T> *allocate( T &&value,
+		                       std::remove_cv_t<std::remove_reference_t<T>>>>
+		std::remove_cv_t<std::remove_reference_t<T>> *allocate( T &&value,
 		                               Allocator const &alloc = Allocator{ } ) {
-			using base_type = std::remove_cv_t<T>;
+			using base_type = std::remove_cv_t<std::remove_reference_t<T>>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
 			if constexpr( is_local_v<base_type> ) {
-- 
2.43.0


From a9eeac5f493cf08df3ce2f7320ba70e7f3a95992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 122/359] fix: ContainerProxy's size, const operator[] and
 emplace could not be called

---
 include/daw/deprecated/daw_common_mixins.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_common_mixins.h b/include/daw/deprecated/daw_common_mixins.h
index df1c219..c6e6b27 100644
--- a/include/daw/deprecated/daw_common_mixins.h
+++ b/include/daw/deprecated/daw_common_mixins.h
@@ -51,11 +51,11 @@ namespace daw::mixins {
 			return derived( ).container( ).end( );
 		}
 
-		[[nodiscard]] const_iterator cbegin( ) {
+		[[nodiscard]] const_iterator cbegin( ) const {
 			return derived( ).container( ).cbegin( );
 		}
 
-		[[nodiscard]] const_iterator cend( ) {
+		[[nodiscard]] const_iterator cend( ) const {
 			return derived( ).container( ).cend( );
 		}
 
@@ -64,7 +64,7 @@ namespace daw::mixins {
 		}
 
 		template<typename... Args>
-		void emplace( iterator where, Args &&...args ) {
+		iterator emplace( iterator where, Args &&...args ) {
 			return derived( ).container( ).emplace( where, DAW_FWD( args )... );
 		}
 
-- 
2.43.0


From efcc0f63e698fb09023b22028b4c1746ce3ded06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 123/359] fix: include daw_attributes.h in daw_poly_value.h

---
 include/daw/daw_poly_value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..7559799 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "ciso646.h"
+#include "daw_attributes.h"
 #include "daw_enable_if.h"
 #include "daw_traits.h"
 
-- 
2.43.0


From 546195b08520c2a28da93b36998b6f667242a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:01 +0000
Subject: [PATCH 124/359] fix: aligned_storage_t has the alignment that was
 asked for

---
 include/daw/daw_aligned_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_aligned_storage.h b/include/daw/daw_aligned_storage.h
index ed1cb8a..587010a 100644
--- a/include/daw/daw_aligned_storage.h
+++ b/include/daw/daw_aligned_storage.h
@@ -17,7 +17,7 @@ namespace daw {
 		struct aligned_storage {
 			union type {
 				std::max_align_t align;
-				unsigned char data[( Len + Align - 1 ) / Align * Align];
+				alignas( Align ) unsigned char data[( Len + Align - 1 ) / Align * Align];
 			};
 		};
 	} // namespace impl
-- 
2.43.0


From 795d91d4d8ac5ecfde8e5b0775ac4a7ce69ee10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 125/359] fix: parse_to reports integers that do not fit,
 accepts the smallest one, and rejects a lone minus sign

---
 include/daw/daw_parse_to.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..c9ffcfd 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -42,7 +42,6 @@ namespace daw {
 			namespace helpers {
 				template<typename Result>
 				constexpr Result parse_int( daw::string_view &str ) {
-					intmax_t count = std::numeric_limits<Result>::digits;
 					Result result = 0;
 					bool is_neg = false;
 					if( '-' == str.front( ) ) {
@@ -53,18 +52,27 @@ namespace daw {
 						is_neg = true;
 						str.remove_prefix( );
 					}
-					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
-						--count;
+					daw::exception::precondition_check<invalid_input_exception>(
+					  !str.empty( ) );
+					while( !str.empty( ) and is_number( str.front( ) ) ) {
+						auto const digit = static_cast<Result>( str.front( ) - '0' );
+						// Negative values are built from the negated digits as their range
+						// can be larger
+						if( is_neg ) {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result >=
+							  ( std::numeric_limits<Result>::min( ) + digit ) / 10 );
+							result = static_cast<Result>( result * 10 - digit );
+						} else {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result <=
+							  ( std::numeric_limits<Result>::max( ) - digit ) / 10 );
+							result = static_cast<Result>( result * 10 + digit );
+						}
 						str.remove_prefix( );
 					}
-
 					daw::exception::precondition_check<numeric_overflow_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
 					return result;
 				}
 
-- 
2.43.0


From 7f1b65be7c10b534718e81d3d8436fc68f7cca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 126/359] fix: parse_to read past the end of a quoted string
 that is not terminated

---
 include/daw/daw_parse_to.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index c9ffcfd..f24d190 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -145,7 +145,7 @@ namespace daw {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) and str.front( ) == '"' );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From 5624943a82b8870bfef854abff99060f9aaa7ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 127/359] fix: parse_int and parse_unsigned_int accept every
 value of the type, reject non-digits, and do not read an empty range

---
 include/daw/daw_parser_addons.h | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..c4fd8fc 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -50,20 +50,19 @@ namespace daw::parser {
 	constexpr void parse_unsigned_int( ForwardIterator first,
 	                                   ForwardIterator last, Result &result ) {
 		result = Result{};
-		auto count = std::numeric_limits<Result>::digits10;
-
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
 		daw::exception::precondition_check<ParserOutOfRangeException>(
 			'-' != *first,
 			"Negative values are unsupported" );
 
-		for(; first != last and count > 0; ++first, --count) {
-			result *= Result{10};
+		for(; first != last; ++first) {
+			daw::exception::precondition_check<ParserException>( is_number( *first ) );
 			Result const val = from_num_char<Result>( *first );
-			result += val;
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				result <= (std::numeric_limits<Result>::max( ) - val) / 10,
+				"Not enough room to store number" );
+			result = static_cast<Result>(result * 10 + val);
 		}
-		daw::exception::precondition_check<ParserOutOfRangeException>(
-			first == last,
-			"Not enough room to store number" );
 	}
 
 	template<typename Result, typename ForwardIterator>
@@ -89,19 +88,29 @@ namespace daw::parser {
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
-		bool is_neg = false;
+		daw::exception::precondition_check<ParserEmptyException>( first != last );
 		if('-' == *first) {
 			daw::exception::precondition_check<ParserOutOfRangeException>(
 				std::numeric_limits<Result>::is_signed,
 				"Negative values are unsupported with unsigned Result" );
 
-			is_neg = true;
 			++first;
+			daw::exception::precondition_check<ParserEmptyException>( first != last );
+			// Built from the negated digits as the smallest value has no positive
+			// counterpart
+			result = Result{};
+			for(; first != last; ++first) {
+				daw::exception::precondition_check<ParserException>(
+					is_number( *first ) );
+				Result const val = from_num_char<Result>( *first );
+				daw::exception::precondition_check<ParserOutOfRangeException>(
+					result >= (std::numeric_limits<Result>::min( ) + val) / 10,
+					"Not enough room to store number" );
+				result = static_cast<Result>(result * 10 - val);
+			}
+			return;
 		}
 		result = parse_unsigned_int<Result>( first, last );
-		if(is_neg) {
-			result *= static_cast<Result>(-1);
-		}
 	}
 
 	template<typename Result, typename ForwardIterator>
-- 
2.43.0


From b4795687e3d6b8e76e5346bc1eaf0b4a34d8eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:26 +0000
Subject: [PATCH 128/359] fix: find_number finds the whole number

---
 include/daw/daw_parser_addons.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index c4fd8fc..65da818 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -24,19 +24,20 @@ namespace daw::parser {
 			return is_a( '-', v ) or is_number( v );
 		};
 
+		bool at_first = true;
 		bool has_decimal = false;
-		auto const is_last = [&has_decimal]( auto const &v ) {
-			if(is_a( '.', v )) {
-				if(has_decimal) {
-					return true;
-				}
+		auto const is_last = [&]( auto const &v ) {
+			if(at_first) {
+				at_first = false;
+				return false;
+			}
+			if(is_a( '.', v ) and not has_decimal) {
 				has_decimal = true;
+				return false;
 			}
-			return is_number( v );
+			return not is_number( v );
 		};
-		auto result = from_to_pred( first, last, is_first, is_last );
-		++result.last;
-		return result;
+		return from_to_pred( first, last, is_first, is_last );
 	}
 
 	template<typename R>
-- 
2.43.0


From e0de2eb4437eabd127d6543db5b455d002434756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 129/359] fix: parse_string_literal skips leading whitespace
 and rejects a literal that ends in an escaped quote

---
 include/daw/daw_parser_addons.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 65da818..7212a85 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -125,8 +125,9 @@ namespace daw::parser {
 	constexpr auto parse_string_literal( ForwardIterator first,
 	                                     ForwardIterator const last ) {
 		auto result = trim_left( first, last );
-		auto quote_char = *first;
-
+		daw::exception::precondition_check<ParserException>(
+			result.first != last );
+		auto quote_char = *result.first;
 		daw::exception::precondition_check<ParserException>(
 			is_quote( quote_char ) );
 
@@ -135,7 +136,8 @@ namespace daw::parser {
 		++it;
 		bool found = false;
 		while(it != last) {
-			if(( found = is_a( *it, quote_char ) ) and !is_escape( *last_it )) {
+			found = is_a( *it, quote_char ) and !is_escape( *last_it );
+			if(found) {
 				break;
 			}
 			last_it = it;
-- 
2.43.0


From 17fb18e739931e5c8de51723c7fda0c1decdfea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 130/359] fix: split_on and split_if never ended as they found
 the same divider again

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..a67da81 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -389,7 +389,7 @@ namespace daw::parser {
 		  until_value( first, last, DAW_FWD( divider ), DAW_FWD( dividers )... );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until_value( result.last, last, DAW_FWD( divider ),
+			result = until_value( std::next( result.last ), last, DAW_FWD( divider ),
 			                      DAW_FWD( dividers )... );
 		}
 		if( result.first != result.last ) {
@@ -408,7 +408,7 @@ namespace daw::parser {
 		auto result = until( first, last, is_divider );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until( result.last, last, is_divider );
+			result = until( std::next( result.last ), last, is_divider );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
-- 
2.43.0


From 1cda835beea5387eb0088939889cfbe55d561615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 131/359] fix: trim and trim_right of the parser helpers cut
 the text at its first inner whitespace

---
 include/daw/daw_parser_helper.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index a67da81..35be3e5 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -512,8 +512,13 @@ namespace daw::parser {
 		if( not start ) {
 			return make_find_result( first, last, false );
 		}
-		auto finish = until( start.last, last, &is_unicode_whitespace<val_t> );
-		return make_find_result( first, finish.last, true );
+		auto finish = std::next( start.last );
+		for( auto it = finish; it != last; ++it ) {
+			if( not_unicode_whitespace<val_t>( *it ) ) {
+				finish = std::next( it );
+			}
+		}
+		return make_find_result( first, finish, true );
 	}
 
 	template<typename ForwardIterator>
-- 
2.43.0


From 1ed33d224a1bbbbd83287b0031984fe81bbba1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 132/359] fix: value_in said that a value is in the container
 when it is not

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 35be3e5..daba7b8 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -200,14 +200,14 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
 	}
 
 	class in_t {
-- 
2.43.0


From ddcb2a34c43686bf5004df79240a74de861d60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 133/359] fix: is_true, assert_equal and assert_not_equal of
 the parser helpers were inverted

---
 include/daw/daw_parser_helper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index daba7b8..712d73a 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -253,7 +253,7 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
+		return is_true( DAW_FWD( value ), DAW_FWD( predicate ) ) or
 		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
 	}
 
@@ -316,14 +316,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( lhs != rhs );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From a806e55de64778e2b419aa50e4d8965554489a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 134/359] fix: is_crlf only matched at the start of the text

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 712d73a..180aa1e 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -568,7 +568,7 @@ namespace daw::parser {
 
 		[[nodiscard]] inline bool operator( )( value_type const &v ) {
 			m_last_values.push_back( std::move( v ) );
-			while( m_last_values.size( ) > 4 ) {
+			while( m_last_values.size( ) > 2 * m_count ) {
 				m_last_values.pop_front( );
 			}
 			return match( );
-- 
2.43.0


From f7b8dcc6753f8ba5bb2a41684b4da04f397e2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:27 +0000
Subject: [PATCH 135/359] fix: find_result_t::empty( false ) always said not
 empty

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 180aa1e..08b1b0c 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -51,7 +51,7 @@ namespace daw::parser {
 		[[nodiscard]] constexpr bool empty( bool throw_on_empty ) {
 			daw::exception::precondition_check<ParserEmptyException>(
 			  not( throw_on_empty and empty( ) ) );
-			return false;
+			return empty( );
 		}
 
 		template<typename Container>
-- 
2.43.0


From a1fb2fc2df4353e720be5b48f29083c85a93253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 136/359] fix: one_of could not be used

---
 include/daw/daw_parser_helper.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 08b1b0c..727f0c4 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -159,6 +159,10 @@ namespace daw::parser {
 		return is_a( value, tst ) or is_a( value, tsts... );
 	}
 
+	template<typename T, typename Container>
+	[[nodiscard]] constexpr auto value_in( T &&value, Container &&container )
+	  -> decltype( std::begin( container ) == std::end( container ) );
+
 	template<typename Arg>
 	class one_of_t {
 		std::vector<Arg> m_args;
@@ -175,7 +179,7 @@ namespace daw::parser {
 
 	template<typename... Arg>
 	[[nodiscard]] auto one_of( Arg &&...args ) {
-		return one_of_t<Arg...>{ DAW_FWD( args )... };
+		return one_of_t<std::common_type_t<Arg...>>{ DAW_FWD( args )... };
 	}
 
 	template<typename ForwardIterator, typename Value, typename... Values>
-- 
2.43.0


From 30a892d0bccb42a0008c679f61fc1495bd459285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 137/359] fix: math::round of negative numbers, and of the
 number just below one half, was off by one

---
 include/daw/daw_math.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..fb96d16 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -48,7 +48,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const whole = static_cast<Result>( d );
+		auto const part = d - static_cast<float>( whole );
+		if( part >= float{ 0.5 } ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		if( part <= float{ -0.5 } ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +64,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const whole = static_cast<Result>( d );
+		auto const part = d - static_cast<double>( whole );
+		if( part >= double{ 0.5 } ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		if( part <= double{ -0.5 } ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<float>>
-- 
2.43.0


From aed28d57d14701aaaa7450a6a942948af418077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 138/359] fix: math::floor of negative numbers, and math::ceil
 of whole and of negative numbers, were off by one

---
 include/daw/daw_math.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index fb96d16..ba95506 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -80,7 +80,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		auto const whole = static_cast<Result>( d );
+		if( static_cast<float>( whole ) > d ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +92,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		auto const whole = static_cast<Result>( d );
+		if( static_cast<double>( whole ) > d ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -96,7 +104,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const whole = static_cast<Result>( d );
+		if( static_cast<float>( whole ) < d ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -104,7 +116,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const whole = static_cast<Result>( d );
+		if( static_cast<double>( whole ) < d ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		return whole;
 	}
 
 	template<typename T>
-- 
2.43.0


From e62d552f46943d1d0839e01558e5d81f5c67d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 139/359] fix: math::pow squared its result for every step of
 the exponent

---
 include/daw/daw_math.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index ba95506..07d745b 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -204,10 +204,11 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
+			T result = 1;
 			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
-- 
2.43.0


From fa455b18d43c7a570cf581ff08e5283a35e64a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 140/359] fix: math::abs of the smallest int, and of an
 unsigned variable

---
 include/daw/daw_math.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 07d745b..8759c2d 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -178,7 +178,8 @@ namespace daw::math {
 			return pow2<Result>( bsizeof<intmax_t> - 1 );
 		}
 		if( v < 0 ) {
-			v = -v;
+			// The smallest value of a type has no positive counterpart
+			return static_cast<Result>( -static_cast<intmax_t>( v ) );
 		}
 		return static_cast<Result>( v );
 	}
@@ -187,8 +188,8 @@ namespace daw::math {
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From 43d71f76b395eef416156b394b5d38408c07be4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 141/359] fix: math::nearly_equal compared differences near
 zero with a negative number

---
 include/daw/daw_math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 8759c2d..a57b336 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -309,10 +309,10 @@ namespace daw::math {
 		if( a == b ) { // shortcut, handles infinities
 			return true;
 		}
-		if( a == 0 or b == 0 or diff < std::numeric_limits<T>::min_exponent ) {
+		if( a == 0 or b == 0 or diff < ( std::numeric_limits<T>::min )( ) ) {
 			// a or b is zero or both are extremely close to it
 			// 			// relative error is less meaningful here
-			return diff < ( epsilon * std::numeric_limits<T>::min_exponent );
+			return diff < ( epsilon * ( std::numeric_limits<T>::min )( ) );
 		}
 		// use relative error
 		return diff / (daw::min)(( absA + absB ), max_value<T>) < epsilon;
-- 
2.43.0


From e13dfdbe10b22c88bc44576cb917b3220121a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 142/359] fix: cxmath::set_exponent to zero lost the sign and
 the significand

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..4eebcfe 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From dc35a5a845b10a4572cf27601419cad692860f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 143/359] fix: cxmath::pow2 returned zero for the smallest
 powers

---
 include/daw/daw_cxmath.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 4eebcfe..0897a1e 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -777,8 +777,14 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
-			return Real{ 0 };
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
+			using UInt = cxmath_impl::unsigned_float_type_t<Real>;
+			std::int32_t const bit = exp - ( daw::numeric_limits<Real>::min_exponent -
+			                                 daw::numeric_limits<Real>::digits );
+			if( bit < 0 ) {
+				return Real{ 0 };
+			}
+			return DAW_BIT_CAST( Real, static_cast<UInt>( UInt{ 1 } << static_cast<UInt>( bit ) ) );
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
 		  cxmath_impl::unsigned_float_type_t<Real>{ 0 }, exp );
-- 
2.43.0


From c595daedbc763aa4dee1b4c27f61cb50933a810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 144/359] fix: cxmath::is_even said that odd numbers are even

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 0897a1e..dfb4754 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1025,7 +1025,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From db3bf45ff1997b8e2cabcd1a6be6969906994ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 145/359] fix: cxmath::sqrt of negative and of subnormal
 numbers

---
 include/daw/daw_cxmath.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index dfb4754..3d27e80 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1118,12 +1118,22 @@ namespace daw::cxmath {
 		case fp_classes::nan:
 			return std::numeric_limits<Real>::quiet_NaN( );
 		case fp_classes::infinity:
+			if( r < Real{ 0 } ) {
+				return std::numeric_limits<Real>::quiet_NaN( );
+			}
 			return std::numeric_limits<Real>::infinity( );
 		case fp_classes::subnormal:
+			if( r < Real{ 0 } ) {
+				return std::numeric_limits<Real>::quiet_NaN( );
+			}
+			return sqrt_fast( r * pow2<Real>( 64 ) ) * pow2<Real>( -32 );
 		case fp_classes::normal:
 		default:
 			break;
 		}
+		if( r < Real{ 0 } ) {
+			return std::numeric_limits<Real>::quiet_NaN( );
+		}
 		return sqrt_fast( r );
 #else
 		if( DAW_UNLIKELY( r <= Real{ 0 } ) ) {
-- 
2.43.0


From 153cccc2a4ffd4a590a7ef584c06cdf1dee85967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 146/359] fix: cxmath::adjust_exponent could not be used

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 3d27e80..37809f5 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1055,7 +1055,7 @@ namespace daw::cxmath {
 		template<
 		  typename Real, typename UInt,
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
-		constexpr Real adjust_exponent_impl( UInt u, std::int32_t exponent ) {
+		constexpr UInt adjust_exponent_impl( UInt u, std::int32_t exponent ) {
 			auto current_expoent = get_exponent_impl<Real>( u );
 			current_expoent += exponent;
 			return set_exponent_impl<Real>( u, current_expoent );
@@ -1064,7 +1064,7 @@ namespace daw::cxmath {
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
 	                                         std::nullptr_t> = nullptr>
 	constexpr Real adjust_exponent( Real r, std::int32_t exponent ) {
-		auto result = cxmath_impl::adjust_exponent_impl(
+		auto result = cxmath_impl::adjust_exponent_impl<Real>(
 		  DAW_BIT_CAST( cxmath_impl::unsigned_float_type_t<Real>, r ), exponent );
 		return DAW_BIT_CAST( Real, result );
 	}
-- 
2.43.0


From b9f92c1c91ac7e0e5a08f5ca0f0c9292ce0fb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 147/359] fix: cxmath::pow of an unsigned base and a negative
 exponent never ended

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 37809f5..114e198 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -709,11 +709,11 @@ namespace daw::cxmath {
 	                                           std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Number pow( Number b, int32_t exp ) noexcept {
 		auto result = Number{ 1 };
-		while( exp < Number{ 0 } ) {
+		while( exp < 0 ) {
 			result /= b;
 			++exp;
 		}
-		while( exp > Number{ 0 } ) {
+		while( exp > 0 ) {
 			result *= b;
 			--exp;
 		}
-- 
2.43.0


From 48a5778ddc719e843db581fe5b470f3b005f986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 148/359] fix: cxmath::dpow2, dpow10, fpow10 and pow10 read
 past their tables for representable results

---
 include/daw/daw_cxmath.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 114e198..a594acd 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -372,8 +372,8 @@ namespace daw::cxmath {
 		[[nodiscard]] constexpr auto calc_fpow10s( ) noexcept {
 			intmax_t const min_e = daw::numeric_limits<Float>::min_exponent10;
 			intmax_t const max_e = daw::numeric_limits<Float>::max_exponent10;
-			std::array<Float, max_e - min_e> result{ };
-			intmax_t n = max_e - min_e;
+			std::array<Float, max_e - min_e + 1> result{ };
+			intmax_t n = max_e - min_e + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = fpow10_impl2<Float>( n + min_e );
 			}
@@ -382,8 +382,9 @@ namespace daw::cxmath {
 
 		template<typename Integer>
 		[[nodiscard]] constexpr auto calc_pow10s( ) noexcept {
-			std::array<Integer, daw::numeric_limits<Integer>::digits10> result{ };
-			intmax_t n = daw::numeric_limits<Integer>::digits10;
+			// 10^digits10 is representable too
+			std::array<Integer, daw::numeric_limits<Integer>::digits10 + 1> result{ };
+			intmax_t n = daw::numeric_limits<Integer>::digits10 + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = pow10_impl2<Integer>( n );
 			}
@@ -409,7 +410,7 @@ namespace daw::cxmath {
 		public:
 			template<typename Result = Float>
 			[[nodiscard]] static constexpr Result get( intmax_t pos ) noexcept {
-				auto const zero = static_cast<intmax_t>( m_tbl.size( ) / 2ULL );
+				auto const zero = static_cast<intmax_t>( -daw::numeric_limits<Float>::min_exponent10 );
 				return static_cast<Result>( m_tbl[static_cast<size_t>( zero + pos )] );
 			}
 		};
@@ -999,7 +1000,11 @@ namespace daw::cxmath {
 #endif
 
 	[[nodiscard]] constexpr double dpow2( int32_t exp ) noexcept {
+#if defined( DAW_CX_BIT_CAST )
+		return pow2<double>( exp );
+#else
 		return cxmath_impl::pow2_t<double>::get( exp );
+#endif
 	}
 
 	[[nodiscard]] constexpr float fpow10( int32_t exp ) noexcept {
-- 
2.43.0


From 1e411c819b922ac20a1fb62c9b5fdf395b167b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:24 +0000
Subject: [PATCH 149/359] fix: cxmath::popcount of a negative short or char
 counted its sign extension

---
 include/daw/daw_cxmath.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a594acd..6b305d5 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1323,7 +1323,11 @@ namespace daw::cxmath {
 	DAW_ATTRIB_INLINE auto constexpr popcount( Integer i ) {
 		static_assert( std::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
-		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
+		if constexpr( sizeof( Integer ) < sizeof( int ) ) {
+			// Do not count the bits of the sign extension
+			return __builtin_popcount( static_cast<unsigned>( i ) &
+			                           ( ( 1U << bit_count_v<Integer> ) - 1U ) );
+		} else if constexpr( sizeof( Integer ) == sizeof( int ) ) {
 			return __builtin_popcount( static_cast<unsigned>( i ) );
 		} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 			return __builtin_popcountl( static_cast<unsigned long>( i ) );
-- 
2.43.0


From 4698da35dbcca0ba816548f33b3207f6b5b736e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 150/359] fix: network_to_host_endian and to_native_endian
 returned foreign-endian values unswapped

---
 include/daw/daw_endian.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..1af1b26 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -132,11 +132,7 @@ namespace daw {
 	template<typename T,
 	         std::enable_if_t<daw::is_integral_v<T>, std::nullptr_t> = nullptr>
 	constexpr T network_to_host_endian( T value ) noexcept {
-		if constexpr( endian::native == endian::big ) {
-			return value;
-		} else {
-			return to_little_endian( value );
-		}
+		return to_big_endian( value );
 	}
 
 	template<endian SourceEndian, typename T,
@@ -144,10 +140,8 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
 		} else {
-			return to_big_endian( value );
+			return endian_details::swap_bytes( value, daw::constant<sizeof( T )>{ } );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From de17182374dbe6a2f87fc79d78d98ffd6092e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 151/359] fix: bitset::unset also cleared bit index%4 of the
 limb

---
 include/daw/daw_bitset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..f75fffd 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,6 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From 89a985e65912eff66ababc7a0ecfe91433b1510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 152/359] fix: static_bitset set_bit/clear_bit/get_bit shifted
 the position instead of one

---
 include/daw/daw_static_bitset.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index bfd8fd0..bcbd981 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -119,7 +119,7 @@ namespace daw {
 			value_t bit;
 		};
 
-		constexpr bit_address_t get_address( size_t index ) noexcept {
+		static constexpr bit_address_t get_address( size_t index ) noexcept {
 			bit_address_t result{ };
 			result.index = static_cast<value_t>( index / daw::bsizeof<value_t> );
 
@@ -130,15 +130,15 @@ namespace daw {
 		}
 
 		static constexpr void set_bit( value_t &value, value_t bit ) noexcept {
-			value |= static_cast<value_t>( bit << 1U );
+			value |= static_cast<value_t>( 1U ) << bit;
 		}
 
 		static constexpr void clear_bit( value_t &value, value_t bit ) noexcept {
-			value &= static_cast<value_t>( ~static_cast<value_t>( bit << 1U ) );
+			value &= ~( static_cast<value_t>( 1U ) << bit );
 		}
 
-		static constexpr bool get_bit( value_t &value, value_t bit ) noexcept {
-			return ( value & static_cast<value_t>( bit << 1U ) ) != 0U;
+		static constexpr bool get_bit( value_t value, value_t bit ) noexcept {
+			return ( value & ( static_cast<value_t>( 1U ) << bit ) ) != 0U;
 		}
 
 		static constexpr size_t count_ones( value_t value ) noexcept {
@@ -257,7 +257,7 @@ namespace daw {
 
 		/// Get a specific bit from the bitset
 		/// \param index bit position in set
-		constexpr bool get_bit( size_t index ) noexcept {
+		constexpr bool get_bit( size_t index ) const noexcept {
 			auto const loc = get_address( index );
 			return get_bit( m_data[loc.index], loc.bit );
 		}
-- 
2.43.0


From 8d80e9898ec4e6673011131533da8c6df369276d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 153/359] fix: static_bitset(uintmax_t, ...) masked the wrong
 high bits

---
 include/daw/daw_static_bitset.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index bcbd981..4e9a02c 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -88,16 +88,11 @@ namespace daw {
 
 		template<size_t BitWidth, typename value_t>
 		constexpr value_t get_diff_mask( ) noexcept {
-			size_t bw = BitWidth;
-			if( bw > bsizeof<value_t> ) {
-				bw %= bsizeof<value_t>;
-			} else if( bw < bsizeof<value_t> ) {
-				bw = bsizeof<value_t> - bw;
-			}
+			constexpr size_t bw = BitWidth % bsizeof<value_t>;
 			if( bw == 0 ) {
 				return max_value<value_t>;
 			}
-			return daw::mask_msb<value_t>( bw );
+			return daw::mask_msb<value_t>( bsizeof<value_t> - bw );
 		}
 	} // namespace bitset_impl
 	inline constexpr bitset_impl::fmt_binary_t const fmt_binary{ };
-- 
2.43.0


From 85c9a2a83b5b4bc5359b6d4e24f397782f71e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 154/359] fix: static_bitset one_count/zero_count did not
 compile and counted padding bits as zeros

---
 include/daw/daw_static_bitset.h | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 4e9a02c..3f3b6f2 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -145,30 +145,15 @@ namespace daw {
 			return count;
 		}
 
-		static constexpr size_t count_zeros( value_t value ) noexcept {
-			return bsizeof<value_t> - count_ones( value );
-		}
-
-		template<size_t N>
-		static constexpr size_t
-		count_ones( std::array<value_t, N> const &values ) noexcept {
+		static constexpr size_t count_ones(
+		  bounded_array_t<value_t, m_element_capacity> const &values ) noexcept {
 			size_t count = 0;
-			for( size_t n = 0; n < N; ++n ) {
+			for( size_t n = 0; n < m_element_capacity; ++n ) {
 				count += count_ones( values[n] );
 			}
 			return count;
 		}
 
-		template<size_t N>
-		static constexpr size_t
-		count_zeros( std::array<value_t, N> const &values ) noexcept {
-			size_t count = 0;
-			for( size_t n = 0; n < N; ++n ) {
-				count += count_zeros( values[n] );
-			}
-			return count;
-		}
-
 	public:
 		struct static_bitset_iterator;
 		struct static_bitset_const_iterator;
@@ -274,7 +259,7 @@ namespace daw {
 		}
 
 		constexpr size_t zero_count( ) const noexcept {
-			return count_zeros( m_data );
+			return BitWidth - count_ones( m_data );
 		}
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
-- 
2.43.0


From 68f8c98d19de08fc2fddd023b38ee9ac6d34783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 155/359] fix: static_bitset::to_string( fmt_binary ) wrote
 outside the string

---
 include/daw/daw_static_bitset.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 3f3b6f2..3d89d43 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -264,20 +264,9 @@ namespace daw {
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
 			std::string result( BitWidth, '0' );
-			size_t pos = m_element_capacity - 1;
-			for( size_t index = 0; index < m_data.size( ); ++index ) {
-				auto value = m_data[index];
-				if( !value ) {
-					pos -= daw::bsizeof<value_t>;
-					continue;
-				}
-				while( value ) {
-					auto tmp = value & 1U;
-					if( tmp == 1 ) {
-						result[pos] = '1';
-					}
-					value >>= 1U;
-					--pos;
+			for( size_t index = 0; index < BitWidth; ++index ) {
+				if( get_bit( index ) ) {
+					result[BitWidth - 1U - index] = '1';
 				}
 			}
 			return result;
-- 
2.43.0


From f2c1ad34a942a762f0820c8f79317d46092f4ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 156/359] fix: static_bitset operations on different widths did
 not compile; |= returned a copy

---
 include/daw/daw_static_bitset.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 3d89d43..8e78caa 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -101,6 +101,9 @@ namespace daw {
 
 	template<size_t BitWidth>
 	class static_bitset {
+		template<size_t>
+		friend class static_bitset;
+
 		static_assert( BitWidth > 0 );
 		using value_t = uintmax_t;
 
@@ -218,8 +221,11 @@ namespace daw {
 		  size_t BitWidthOther,
 		  std::enable_if_t<( BitWidth > BitWidthOther ), std::nullptr_t> = nullptr>
 		constexpr static_bitset(
-		  static_bitset<BitWidthOther> const &other ) noexcept
-		  : m_data{ other.m_data } {}
+		  static_bitset<BitWidthOther> const &other ) noexcept {
+			for( size_t n = 0; n < other.m_data.size( ); ++n ) {
+				m_data[n] = other.m_data[n];
+			}
+		}
 
 		/// Enable a specific bit in the bitset
 		/// \param index bit position in set
@@ -313,12 +319,13 @@ namespace daw {
 		// Bitwise operations
 
 		template<size_t BitWidthRhs>
-		constexpr static_bitset
+		constexpr static_bitset &
 		operator|=( static_bitset<BitWidthRhs> const &rhs ) noexcept {
 			size_t const SZ = (std::min)( m_data.size( ), rhs.m_data.size( ) );
 			for( size_t n = 0; n < SZ; ++n ) {
 				m_data[n] |= rhs.m_data[n];
 			}
+			m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
 			return *this;
 		}
 
-- 
2.43.0


From 38a31f1dd19415a21f45fff2346e2d3fcb357ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:25 +0000
Subject: [PATCH 157/359] fix: static_bitset shifts and ~ used the wrong
 carries, ran past the data and left bits above the width

---
 include/daw/daw_static_bitset.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 8e78caa..8e3213c 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -388,6 +388,7 @@ namespace daw {
 			for( size_t n = 0; n < m_data.size( ); ++n ) {
 				result.m_data[n] = ~m_data[n];
 			}
+			result.m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
 			return result;
 		}
 
@@ -442,23 +443,27 @@ namespace daw {
 				clear( );
 				return *this;
 			}
+			if( bits == 0U ) {
+				return *this;
+			}
 			if( bits < bsizeof<value_t> ) {
 				value_t carry = 0U;
 				for( size_t n = 0; n < m_data.size( ); ++n ) {
-					value_t next_carry = ( m_data[n] & daw::mask_lsb<value_t>( bits ) ) >>
-					                     ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[n] >> ( bsizeof<value_t> - bits );
 					m_data[n] <<= bits;
 					m_data[n] |= carry;
 					carry = next_carry;
 				}
+				m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = m_data.size( ); n > 0; --n ) {
+				for( size_t n = m_data.size( ); n > 1; --n ) {
 					auto pos = n - 1;
 					m_data[pos] = m_data[pos - 1];
 				}
 				m_data[0] = 0U;
+				m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
 				return *this;
 			}
 			while( bits >= bsizeof<value_t> ) {
@@ -480,8 +485,7 @@ namespace daw {
 				value_t carry = 0U;
 				for( size_t n = m_data.size( ); n > 0; --n ) {
 					auto const pos = n - 1;
-					value_t next_carry = ( m_data[pos] & daw::mask_msb<value_t>( bits ) )
-					                     << ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[pos] << ( bsizeof<value_t> - bits );
 					m_data[pos] >>= bits;
 					m_data[pos] |= carry;
 					carry = next_carry;
@@ -489,7 +493,7 @@ namespace daw {
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = 0; n < m_data.size( ); ++n ) {
+				for( size_t n = 0; n + 1U < m_data.size( ); ++n ) {
 					m_data[n] = m_data[n + 1];
 				}
 				m_data.back( ) = 0U;
-- 
2.43.0


From 6fea9f7d958e6634c9d62ccf8b4a3660e41e3a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 158/359] fix: count_trailing_zeros fallback negated INT_MIN

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 6b305d5..0b2a49d 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -573,7 +573,7 @@ namespace daw::cxmath {
 				return 32U;
 			}
 			std::uint32_t c = 32U;
-			v &= static_cast<std::uint32_t>( -static_cast<std::int32_t>( v ) );
+			v &= 0U - v;
 			if( v ) {
 				c--;
 			}
-- 
2.43.0


From eda8a53ec2435b81c2a88c80dd655cbf153a638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 159/359] fix: 65535_u16 and 255_u8 asserted

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..f6ef12d 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3325,13 +3325,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From d72c898f493ebd17e9ff242220c9bc27f2f2f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 160/359] fix: bitcount summed shifted values instead of
 counting bits and never ended for negative values

---
 include/daw/daw_utility.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 4f1992f..825714e 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -407,10 +407,12 @@ namespace daw {
 
 	template<typename Value>
 	[[nodiscard]] constexpr std::size_t bitcount( Value value ) noexcept {
+		using Bits = std::make_unsigned_t<Value>;
+		auto bits = static_cast<Bits>( value );
 		size_t result = 0;
-		while( value ) {
-			result += static_cast<size_t>( value & ~static_cast<Value>( 0b1 ) );
-			value >>= 1;
+		while( bits ) {
+			result += static_cast<size_t>( bits & 1U );
+			bits = static_cast<Bits>( bits >> 1U );
 		}
 		return result;
 	}
-- 
2.43.0


From 513d11a984a6c9cfd21b866672102a987cb1c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 161/359] fix: natural_t operators on two different integer
 types did not compile

---
 include/daw/daw_natural.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..2166862 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -61,7 +61,7 @@ namespace daw {
 		constexpr natural_t &operator+=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_addition_operator_v<T>,
 			               "Addition operator is not valid" );
-			m_value += rhs.m_value;
+			m_value += static_cast<U>( rhs );
 			return *this;
 		}
 
@@ -69,7 +69,7 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			*this = *this - rhs;
 			return *this;
 		}
 
@@ -77,7 +77,7 @@ namespace daw {
 		constexpr natural_t &operator*=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_multiplication_operator_v<T>,
 			               "Multiplication operator is not valid" );
-			m_value *= rhs.m_value;
+			m_value *= static_cast<U>( rhs );
 			return *this;
 		}
 
@@ -85,7 +85,7 @@ namespace daw {
 		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value /= static_cast<U>( rhs );
 			return *this;
 		}
 
@@ -93,7 +93,7 @@ namespace daw {
 		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value %= static_cast<U>( rhs );
 			return *this;
 		}
 
@@ -133,9 +133,8 @@ namespace daw {
 			static_assert( daw::traits::has_addition_operator_v<T, U>,
 			               "Addition operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) + std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) + static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) +
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -154,9 +153,8 @@ namespace daw {
 			static_assert( daw::traits::has_multiplication_operator_v<T, U>,
 			               "Multiplication operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) * std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) * static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) *
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
-- 
2.43.0


From 9cf9b59f27d106a2a2a90fa62890a52c6dbb5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:14 +0000
Subject: [PATCH 162/359] fix: natural_t subtraction of unsigned values wrapped
 instead of reporting an invalid natural

---
 include/daw/daw_natural.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 2166862..92372ab 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -11,6 +11,7 @@
 #include "daw/ciso646.h"
 #include "daw/daw_cxmath.h"
 #include "daw/daw_exception.h"
+#include "daw/daw_int_cmp.h"
 #include "daw/daw_traits.h"
 
 namespace daw {
@@ -143,6 +144,8 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  daw::cmp_greater( static_cast<T>( lhs ), static_cast<U>( rhs ) ) );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
-- 
2.43.0


From ea0750b88e2406301c2c0d0ab881914a30c4a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:53 +0000
Subject: [PATCH 163/359] fix: unary minus of UIntN overflowed the signed type

---
 include/daw/daw_uint_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index f6ef12d..a94e55a 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1745,7 +1745,7 @@ namespace daw {
 
 	constexpr UInt64 operator-( UInt64 value ) {
 		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		  0U - static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2129,7 +2129,7 @@ namespace daw {
 
 	constexpr UInt32 operator-( UInt32 value ) {
 		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		  0U - static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
@@ -2413,7 +2413,7 @@ namespace daw {
 
 	constexpr UInt16 operator-( UInt16 value ) {
 		return static_cast<UInt16>( static_cast<std::uint16_t>(
-		  static_cast<std::uint32_t>( -static_cast<std::int16_t>( value ) ) ) );
+		  0U - static_cast<std::uint16_t>( value ) ) );
 	}
 
 	constexpr UInt16 &operator++( UInt16 &value ) {
@@ -2610,7 +2610,7 @@ namespace daw {
 
 	constexpr UInt8 operator-( UInt8 value ) {
 		return static_cast<UInt8>( static_cast<std::uint8_t>(
-		  static_cast<std::uint32_t>( -static_cast<std::int8_t>( value ) ) ) );
+		  0U - static_cast<std::uint8_t>( value ) ) );
 	}
 
 	constexpr UInt8 &operator++( UInt8 &value ) {
-- 
2.43.0


From 41e942d6f5a52a28e91ebfedca8b7d34876db7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 164/359] fix: uint8_t / UInt64 divided by the low 32 bits of
 the divisor

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a94e55a..6696740 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2595,8 +2595,8 @@ namespace daw {
 	}
 
 	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
-		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
-		                                 static_cast<std::uint32_t>( rhs ) );
+		lhs = static_cast<std::uint8_t>( static_cast<std::uint64_t>( lhs ) /
+		                                 static_cast<std::uint64_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
 
-- 
2.43.0


From caf3c578140fbfcf897a2e740b3feb2e12566590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 165/359] fix: siphash24 sign extended bytes above 0x7f

---
 include/daw/daw_sip_hash.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..b9fab77 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,14 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			return static_cast<uint64_t>( static_cast<unsigned char>( ptr[0] ) ) |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[1] ) ) << 8U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[2] ) ) << 16U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[3] ) ) << 24U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[4] ) ) << 32U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[5] ) ) << 40U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[6] ) ) << 48U |
+			       static_cast<uint64_t>( static_cast<unsigned char>( ptr[7] ) ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From 7e5c4d232e6b622da014d91c2cb03c13fc07d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 166/359] fix: siphash24 did not compile for byte types other
 than char

---
 include/daw/daw_sip_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index b9fab77..080d3c5 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -92,7 +92,7 @@ namespace daw {
 		uint64_t v2 = k[0] ^ 0x6c7967656e657261ULL;
 		uint64_t v3 = k[1] ^ 0x7465646279746573ULL;
 
-		daw::span<char const> data_in( first, sz );
+		daw::span<Byte const> data_in( first, sz );
 		while( data_in.size( ) >= 8 ) {
 			auto mi = sip_impl::to_u64( data_in.data( ) );
 			data_in.remove_prefix( 8 );
-- 
2.43.0


From 6e9b234b5e06d1655554025d054ae52705d0fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 167/359] fix: metro hash64 sign extended the last byte

---
 include/daw/daw_metro_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..ec7732c 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,7 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash += static_cast<uint64_t>(static_cast<unsigned char>(buff.front( ))) * k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 070c56e36406ae2a27f99a9fa229c7e5bea15a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 168/359] fix: fnv1a_hash_t( char const * ) sign extended bytes
 above 0x7f

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..bfd4f43 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,8 +127,7 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
-				hash *= fnv1a_impl::fnv_prime;
+				hash = append_hash( hash, *ptr );
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
 				DAW_UNSAFE_BUFFER_FUNC_STOP
-- 
2.43.0


From 2bb73874205b19ec8a5c3394b59c45a5f228a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:02 +0000
Subject: [PATCH 169/359] fix: generic_hash_t<8>( T const * ) ignored the
 object and only compiled for bytes

---
 include/daw/daw_generic_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..4935ac5 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -183,9 +183,9 @@ namespace daw {
 		template<typename T>
 		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
+			auto bptr = reinterpret_cast<unsigned char const *>( ptr );
 			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+				hash = append_hash( hash, bptr[n] );
 			}
 			return hash;
 		}
-- 
2.43.0


From 9a2e8e803268a3f805ae14380b2db270cc4029b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 170/359] fix: fnv1a_hash of a string view does not compile:
 call to size is ambiguous

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index bfd4f43..e0c7e55 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -184,8 +184,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0


From 237a72188a0f6ce1ebe33878ed88241edd7797ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 171/359] fix: std::hash of not_null does not compile: it looks
 up the hash of an rvalue reference type

---
 include/daw/daw_not_null.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index db2540b..a0a0883 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -444,8 +444,7 @@ namespace daw {
 template<typename Pointer>
 struct std::hash<daw::not_null<Pointer>> {
 	[[nodiscard]] auto operator( )( daw::not_null<Pointer> value ) const
-	  -> decltype( std::hash<decltype( std::declval<Pointer>( ) )>{ }(
-	    value.get( ) ) ) {
-		return std::hash<decltype( std::declval<Pointer>( ) )>{ }( value.get( ) );
+	  -> decltype( std::hash<Pointer>{ }( value.get( ) ) ) {
+		return std::hash<Pointer>{ }( value.get( ) );
 	}
 };
-- 
2.43.0


From ed5067db0869d58a94220325e33de9b0d48d433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 172/359] fix: are_equal with three or more values does not
 compare every value

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 432d02edd907af8aad1d11b61cd61213d8058866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 173/359] fix: gather does not compile: a pair is not an
 iterator_pair

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..face1b9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 60331d1d876ead80cb0d36bd25467bde8d3ca380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 174/359] fix: algorithm::split drops the elements after the
 last delimiter

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index face1b9..9011a7a 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From 272b70bacdc2c4e1ae375d0c3cb58ebfb7623119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 175/359] fix: in_range checks its bounds after moving from
 them

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9011a7a..527ed6c 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -726,7 +726,8 @@ namespace daw::algorithm {
 			  : m_lower( DAW_FWD( lower ) )
 			  , m_upper( DAW_FWD( upper ) ) {
 
-				daw::exception::precondition_check<std::out_of_range>( lower <= upper );
+				daw::exception::precondition_check<std::out_of_range>( m_lower <=
+				                                                         m_upper );
 			}
 
 			template<typename T>
-- 
2.43.0


From 45a3cecc0948820cfce393057d46e41136d72cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 176/359] fix: safe_prev cannot be called with its default
 distance

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 527ed6c..30b6e71 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -196,7 +196,7 @@ namespace daw {
 	/// @param first boundary for it
 	/// @param n number of steps to advance backwards
 	/// @return The resulting iterator advanced n steps
-	template<typename Iterator, typename Distance>
+	template<typename Iterator, typename Distance = size_t>
 	constexpr Iterator
 	safe_prev( Iterator it, Iterator first, Distance n = 1 ) noexcept(
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
-- 
2.43.0


From 6a9fac5701a837695eb6a9f028e9ae6234b78810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 177/359] fix: not_equal is not the negation of equal: it
 requires every pair of elements to differ

---
 include/daw/daw_algorithm.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 30b6e71..be670ef 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1272,11 +1272,11 @@ namespace daw::algorithm {
 		                        decltype( *first2 )>( );
 
 		while( ( first1 != last1 ) and ( first2 != last2 ) and
-		       comp( *first1, *first2 ) ) {
+		       not comp( *first1, *first2 ) ) {
 			++first1;
 			++first2;
 		}
-		return first1 == last1 and first2 == last2;
+		return first1 != last1 or first2 != last2;
 	}
 
 	/// @brief Determine if two ranges [first1, last1) and [first2, first2 +
@@ -1318,11 +1318,13 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<InputIterator1>( );
 		traits::is_input_iterator_test<InputIterator2>( );
 
-		while( first1 != last1 and std::not_equal_to<>{ }( *first1, *first2 ) ) {
+		while( first1 != last1 and
+		       not std::not_equal_to<>{ }( *first1, *first2 ) ) {
+
 			++first1;
 			++first2;
 		}
-		return not( first1 != last1 );
+		return first1 != last1;
 	}
 
 	/// @brief Returns an iterator pointing to the first element in the range
-- 
2.43.0


From 1db9bce3839946b559d6603e1e0e339d0706668f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 178/359] fix: convert_copy and convert_copy_n do not return
 the end of the output

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index be670ef..d37f4d2 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2129,13 +2129,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2147,6 +2148,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 1694ebfb972e563d4e3ae9e824fa32eaabf63b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 179/359] fix: extract_matching extracts repeatedly through an
 invalidated iterator

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d37f4d2..9bc16ae 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1917,8 +1917,9 @@ namespace daw::algorithm {
 				// Iterator is invalidated inside extract_to,
 				// incrementing here ensures that we do not have an
 				// iterator to the current item
-				extract_to( from, to, it );
+				auto const current = it;
 				++it;
+				to.insert( from.extract( current ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From 45fcf383f5666809ddcc31e34590811ee9bd8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 180/359] fix: find_unsorted moves outside of an empty range

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9bc16ae..e0de340 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1994,6 +1994,9 @@ namespace daw::algorithm {
 	template<typename RandomIterator, typename Compare = std::less<>>
 	RandomIterator find_unsorted( RandomIterator first, RandomIterator last,
 	                              Compare comp = Compare{ } ) {
+		if( first == last ) {
+			return last;
+		}
 		auto second = std::next( first );
 		auto second_last = std::prev( last );
 
-- 
2.43.0


From 5f2f9c503f8a3a7f929a70932288213e0e772d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 181/359] fix: rotate writes past the range when middle is
 last, and slide does not compile because rotate returns nothing

---
 include/daw/daw_algorithm_cx.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index 54fcab9..b273f27 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -22,25 +22,39 @@ namespace daw::algorithm {
 	/// @param first first item in range
 	/// @param middle middle of range, first item in new range
 	/// @param last last item in range
+	/// @return position of the item that was first
 	template<typename ForwardIterator, typename LastType>
-	constexpr void rotate(
+	constexpr ForwardIterator rotate(
 	  ForwardIterator first, ForwardIterator middle,
 	  LastType last ) noexcept( noexcept( daw::cswap( *first, *middle ) ) ) {
 
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		traits::is_inout_iterator_test<ForwardIterator>( );
 
+		if( first == middle ) {
+			return daw::next( first, daw::distance( first, last ) );
+		}
+		if( middle == last ) {
+			return first;
+		}
 		ForwardIterator tmp = middle;
+		ForwardIterator result = first;
+		bool has_result = false;
 		while( first != tmp ) {
 			daw::cswap( *first, *tmp );
 			++first;
 			++tmp;
 			if( tmp == last ) {
+				if( not has_result ) {
+					result = first;
+					has_result = true;
+				}
 				tmp = middle;
 			} else if( first == middle ) {
 				middle = tmp;
 			}
 		}
+		return result;
 	}
 
 	template<typename ForwardIterator>
-- 
2.43.0


From 557a11b8f1a5ddff07f50cd378bff8a4fc1e7c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 182/359] fix: nth_element does not place the nth element

---
 include/daw/daw_algorithm_cx.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index b273f27..eab202d 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -89,19 +89,24 @@ namespace daw::algorithm {
 
 		traits::is_compare_test<Compare, decltype( *first ), decltype( *nth )>( );
 
-		if( not( first != last ) ) {
+		if( not( nth != last ) ) {
 			return;
 		}
-		while( first != nth ) {
+		while( true ) {
 			auto min_idx = first;
 			auto j = daw::next( first );
 			while( j != last ) {
 				if( daw::invoke( comp, *j, *min_idx ) ) {
 					min_idx = j;
-					daw::cswap( *first, *min_idx );
 				}
 				++j;
 			}
+			if( min_idx != first ) {
+				daw::cswap( *first, *min_idx );
+			}
+			if( first == nth ) {
+				return;
+			}
 			++first;
 		}
 	}
-- 
2.43.0


From 26403e8ed019c9f00d4e96dd1a9dd996e23ab7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 183/359] fix: max_element of a container cannot be called: it
 has template parameters that cannot be deduced

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..5bc12af 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From 2de1a56f48aaa58fbb2cf5820bf8adcb0da25922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 184/359] fix: safe_advance, safe_next, safe_prev and begin_at
 do not compile for iterators without random access

---
 include/daw/daw_algorithm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index e0de340..d45a1e2 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -88,7 +88,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -103,7 +103,8 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> =
+	    nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
-- 
2.43.0


From 2c808d6b88787eeaf4a9f6fb52006b00dffe9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 185/359] fix: partition does not compile for iterators from
 namespace std: find_if_not is ambiguous

---
 include/daw/daw_algorithm_cx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm_cx.h b/include/daw/daw_algorithm_cx.h
index eab202d..de8d47c 100644
--- a/include/daw/daw_algorithm_cx.h
+++ b/include/daw/daw_algorithm_cx.h
@@ -120,7 +120,7 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<ForwardIterator>( );
 		traits::is_unary_predicate_test<UnaryPredicate, decltype( *first )>( );
 
-		first = find_if_not( first, last, unary_predicate );
+		first = daw::algorithm::find_if_not( first, last, unary_predicate );
 		if( first == last ) {
 			return first;
 		}
-- 
2.43.0


From 4514908ceb426a5a12212ca346c008842a1407e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 186/359] fix: container transform rejects every output
 iterator that yields a reference

---
 include/daw/daw_container_algorithm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 5bc12af..91fe77d 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
-- 
2.43.0


From 5f38b269d6957f0977d7477a5799f71e57952fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 187/359] fix: advancing a bidirectional iterator backwards
 moves one position too few

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From 3325c765b96a0e04f659c3c367535b3424c45d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 188/359] fix: quick_sort stops as soon as one partition is
 small and leaves the rest unsorted

---
 include/daw/deprecated/daw_stack_quick_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_stack_quick_sort.h b/include/daw/deprecated/daw_stack_quick_sort.h
index 5f8badc..d14a4df 100644
--- a/include/daw/deprecated/daw_stack_quick_sort.h
+++ b/include/daw/deprecated/daw_stack_quick_sort.h
@@ -70,7 +70,7 @@ namespace daw {
 
 			auto const dist = std::distance( first, last );
 			if( dist <= 1 ) {
-				return;
+				continue;
 			}
 			auto const mid = std::next( first, dist / 2 );
 			auto const pivot =
-- 
2.43.0


From 9b0b46afcea137ba0bbb5bcb0e0efe45da32fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 189/359] fix: quick_sort overflows its fixed stack on inputs
 that partition badly

---
 include/daw/deprecated/daw_stack_quick_sort.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_stack_quick_sort.h b/include/daw/deprecated/daw_stack_quick_sort.h
index d14a4df..9c6dc25 100644
--- a/include/daw/deprecated/daw_stack_quick_sort.h
+++ b/include/daw/deprecated/daw_stack_quick_sort.h
@@ -86,8 +86,15 @@ namespace daw {
 				  return not cmp( pivot, v );
 			  } );
 
-			sort_stack.push_back( split2, last );
-			sort_stack.push_back( first, less_pivot );
+			// Sorting the smaller partition first bounds the depth of the stack
+			if( std::distance( first, less_pivot ) <
+			    std::distance( split2, last ) ) {
+				sort_stack.push_back( split2, last );
+				sort_stack.push_back( first, less_pivot );
+			} else {
+				sort_stack.push_back( first, less_pivot );
+				sort_stack.push_back( split2, last );
+			}
 		}
 	}
 } // namespace daw
-- 
2.43.0


From 97a0322278bd496077e22d6ebab70819d8ad2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 190/359] fix: sort_to of integers in descending order writes
 outside of the output and loses values

---
 include/daw/daw_sort_n.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 9ef2158..64baf12 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -772,12 +772,11 @@ namespace daw {
 				}
 			} else {
 				auto rf = daw::make_reverse_iterator( first_out + d );
-				auto const rl = daw::make_reverse_iterator( first_out );
-				while( rf != rl ) {
+				while( first_in != last_in ) {
 					auto const pos = static_cast<std::size_t>( *first_in % 10 );
 					rf[counts[pos] - 1U] = *first_in;
 					--counts[pos];
-					++rf;
+					++first_in;
 				}
 			}
 			return first_out + d;
-- 
2.43.0


From f67cd0fe3958eaad5f855058eb040c5b186053c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 191/359] fix: sort_to of negative integers writes outside of
 its counters

---
 include/daw/daw_sort_n.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 64baf12..f20d102 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -751,13 +751,17 @@ namespace daw {
 		               RandomOutputIterator first_out, Compare &&comp ) {
 			using value_t =
 			  typename std::iterator_traits<ForwardIterator>::value_type;
+			auto const last_digit = []( value_t v ) {
+				auto const digit = static_cast<int>( v % 10 );
+				return static_cast<std::size_t>( digit < 0 ? digit + 10 : digit );
+			};
 			bool const is_ascend =
 			  comp( static_cast<value_t>( 0 ), static_cast<value_t>( 1 ) );
 
 			std::array<std::size_t, 10> counts{ };
 			size_t d = 0;
 			for( auto it = first_in; it != last_in; ++it ) {
-				++counts[static_cast<std::size_t>( ( *it ) % 10 )];
+				++counts[last_digit( *it )];
 				++d;
 			}
 			daw::algorithm::partial_sum( std::cbegin( counts ), std::cend( counts ),
@@ -765,7 +769,7 @@ namespace daw {
 
 			if( is_ascend ) {
 				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+					auto const pos = last_digit( *first_in );
 					first_out[counts[pos] - 1U] = *first_in;
 					--counts[pos];
 					++first_in;
@@ -773,7 +777,7 @@ namespace daw {
 			} else {
 				auto rf = daw::make_reverse_iterator( first_out + d );
 				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+					auto const pos = last_digit( *first_in );
 					rf[counts[pos] - 1U] = *first_in;
 					--counts[pos];
 					++first_in;
-- 
2.43.0


From 0605e53baab0ec077741fd5afaf9a3ac2ecc424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 192/359] fix: TakeWhile keeps what it should drop

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From 6c0e4b439c918f68ea882cc182ac8f3b5b6b68c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 193/359] fix: end of Take is the end of its source, input
 ranges do not compile

---
 include/daw/pipelines/take.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..e4379fa 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -35,12 +35,14 @@ namespace daw::pipelines::pimpl {
 				auto const range_size = std::distance( first, last );
 				auto take_size =
 				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
-				return range_t{ sized_iterator<iter_t>{
-				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{
+				  sized_iterator<iter_t>{ first,
+				                          static_cast<std::size_t>( take_size ) },
+				  sized_iterator<iter_t>{ std::next( first, take_size ), 0 } };
 			} else {
-				return range_t{ sized_iterator<iter_t>{ first, how_many },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{
+				  sized_iterator<iter_t>{ first, last, first == last ? 0 : how_many },
+				  sized_iterator<iter_t>{ last, last, 0 } };
 			}
 		}
 	};
-- 
2.43.0


From 4bc0206e7aa009618b8e3364dd3219b0237ec0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 194/359] fix: map and element iterators plus or minus an
 offset do not compile

---
 include/daw/pipelines/elements.h | 8 ++++----
 include/daw/pipelines/map.h      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..e1895ba 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -122,7 +122,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -130,7 +130,7 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
@@ -314,7 +314,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -322,7 +322,7 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..52a8d8b 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,7 +139,7 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
-- 
2.43.0


From a9aac68041f805d98c01bf2c8ddf33a38d0b12e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 195/359] fix: Map ignores its projection

---
 include/daw/pipelines/map.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 52a8d8b..6cf05e3 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,25 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
-- 
2.43.0


From 210590523bcf5e664e350fa79d48eebab7a660d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 196/359] fix: iota_iterator operator[] does not compile

---
 include/daw/pipelines/iota.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..8b78c0f 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From 5d9fcad8c680d1cce1048e061489dd837ffa4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 197/359] fix: the last chunk and a window longer than the
 range reach past the end

---
 include/daw/pipelines/chunk.h | 7 +++++--
 include/daw/pipelines/slide.h | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..8cce62d 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_algorithm.h"
 #include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
@@ -106,11 +107,13 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), static_cast<std::size_t>( m_chunk_size ) ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), static_cast<std::size_t>( m_chunk_size ) ) };
 		}
 
 		[[nodiscard]] constexpr bool
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..e542a99 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -106,11 +106,13 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_slide_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), static_cast<std::size_t>( m_slide_size ) ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_slide_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), static_cast<std::size_t>( m_slide_size ) ) };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 3bfcea442dcce195cd3d6af4a5d4ed1157a0952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 198/359] fix: range_t difference has the wrong sign

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From 16326e39ada12dd229773895004ffec3deac5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 199/359] fix: Flatten reads the end of empty sub ranges

---
 include/daw/pipelines/flatten.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..303477a 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -70,15 +70,23 @@ namespace daw::pipelines::pimpl {
 			return std::end( m_range );
 		}
 
+		// start of the first non-empty sub range, at or after m_range_first
+		DAW_ATTRIB_INLINE constexpr void find_sub_range( ) {
+			while( m_range_first != raend( ) ) {
+				m_cur_first = std::begin( *m_range_first );
+				if( m_cur_first != std::end( *m_range_first ) ) {
+					return;
+				}
+				++m_range_first;
+			}
+			m_cur_first = sub_iterator_t{ };
+			assert( *this == end( ) );
+		}
+
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
 			assert( m_range_first != raend( ) );
 			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
-				m_cur_first = std::begin( *m_range_first );
-			}
+			find_sub_range( );
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
@@ -98,10 +106,9 @@ namespace daw::pipelines::pimpl {
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
 		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  , m_range_first( rabegin( ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
-- 
2.43.0


From 236e8539f3c1a0663cf819c62c701c78706ca8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 200/359] fix: Concat reads the end of empty ranges

---
 include/daw/pipelines/concat.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..127c836 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -54,13 +54,23 @@ namespace daw::pipelines {
 			                   std::end( std::get<Is>( std::move( ranges ) ) ) )... };
 		}
 
+		// move to the first range that has elements left
+		constexpr void skip_empty( ) {
+			while( m_index < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], []( auto const &p ) -> bool {
+				       return p.first == p.second;
+			       } ) ) {
+				++m_index;
+			}
+		}
 	public:
 		explicit concat_view( ) = default;
-
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::tuple{ std::move( ranges )... } ) ) {
+			skip_empty( );
+		}
 
 		concat_view begin( ) const {
 			return *this;
@@ -78,12 +88,10 @@ namespace daw::pipelines {
 		}
 
 		constexpr concat_view &operator++( ) {
-			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
+			daw::visit_nt( m_ranges[m_index], []( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_empty( );
 			return *this;
 		}
 
-- 
2.43.0


From 2eb30b7d1fa8868eba91cf574ab0447213823059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 201/359] fix: zip of ranges of different lengths is as long as
 its first range

---
 include/daw/pipelines/zip.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..3f7f5f8 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -130,7 +130,7 @@ namespace daw::pipelines {
 
 		[[nodiscard]] constexpr bool
 		operator==( zip_iterator const &rhs ) const noexcept {
-			return m_iters == rhs.m_iters;
+			return not( *this != rhs );
 		}
 
 		[[nodiscard]] constexpr bool
@@ -165,7 +165,8 @@ namespace daw::pipelines {
 			return get_at( n, zip_indices( ) );
 		}
 
-		[[nodiscard]] constexpr reference operator[]( difference_type n ) const
+		[[nodiscard]] constexpr const_reference
+		operator[]( difference_type n ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return get_at( n, zip_indices( ) );
 		}
@@ -198,7 +199,19 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// we don't know if they are the same length.  Return the shortest
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				using std::get;
+				auto const diffs = std::array{ static_cast<difference_type>(
+				  get<Is>( m_iters ) - get<Is>( rhs.m_iters ) )... };
+				auto result = diffs[0];
+				for( auto d : diffs ) {
+					if( ( d < 0 ? -d : d ) < ( result < 0 ? -result : result ) ) {
+						result = d;
+					}
+				}
+				return result;
+			}( zip_indices( ) );
 		}
 
 		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
-- 
2.43.0


From 008406e36ea667af1ae9608dd286638cdc4b9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 202/359] fix: EnumerateApply returns a callable instead of a
 range

---
 include/daw/pipelines/enumerate.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..6bed9d9 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -46,10 +46,10 @@ namespace daw::pipelines::pimpl {
 			if constexpr( RandomRange<R> ) {
 				auto const sz = static_cast<EnumType>(
 				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ), DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ) )( DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( EnumType{ }, max_value<EnumType> ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>(
+				  EnumType{ }, max_value<EnumType> ) )( DAW_FWD( r ) );
 			}
 		}
 	};
@@ -62,11 +62,11 @@ namespace daw::pipelines::pimpl {
 			if constexpr( RandomRange<R> ) {
 				auto const sz = static_cast<EnumType>(
 				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( offset, offset + sz ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>(
+				  offset, static_cast<EnumType>( offset + sz ) ) )( DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( offset, max_value<EnumType> ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>(
+				  offset, max_value<EnumType> ) )( DAW_FWD( r ) );
 			}
 		}
 	};
-- 
2.43.0


From 913aef1158b476f09502f79577b0f790e023697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 203/359] fix: Unique of an lvalue range does not compile

---
 include/daw/pipelines/unique.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..9069bb0 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From 6b72e97a529e022c94db2b04f86032d49a01fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 204/359] fix: Split on a sequence skips one element of it only

---
 include/daw/pipelines/split.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..d5389a9 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -33,9 +33,8 @@ namespace daw::pipelines {
 		template<ForwardRange Delimiter>
 		struct delimiter_length_t<Delimiter> {
 			std::ptrdiff_t length;
-
 			constexpr std::ptrdiff_t size( ) {
-				return 1;
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
-- 
2.43.0


From 20e959df402da0e9f588827c9f54ae06b6d969da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 205/359] fix: Split iterators have to be dereferenced before
 an increment, and dereferencing changes equality

---
 include/daw/pipelines/split.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index d5389a9..7fee23b 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -96,6 +96,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr split_view_iterator &operator++( ) {
+			increment_iterator( );
 			assert( m_next );
 			m_first = std::move( *m_next );
 			m_next.reset( );
@@ -118,8 +119,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr bool operator==( split_view_iterator const &rhs ) const {
-			return m_first == rhs.m_first and m_last == rhs.m_last and
-			       m_next == rhs.m_next;
+			return m_first == rhs.m_first and m_last == rhs.m_last;
 		}
 		constexpr bool operator!=( split_view_iterator const &rhs ) const = default;
 	};
-- 
2.43.0


From f3e78c687333ab03afd0562c9c6c5df18998922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 206/359] fix: SumKahanBabushkaNeumaier with a projection does
 not compile

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From d86255100f53f377d8625a340a756591c6244ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 207/359] fix: Sort, Max, Min and MinMax with a comparison do
 not compile

---
 include/daw/pipelines/algorithm.h | 18 +++++++++++-------
 include/daw/pipelines/zip.h       |  1 +
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..525d6b1 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -32,7 +32,8 @@ namespace daw::pipelines {
 
 			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+				return Sort_t<daw::remove_cvref_t<decltype( compare )>>{
+				  DAW_FWD( compare ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -65,9 +66,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -99,9 +101,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -133,9 +136,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index 3f7f5f8..ecc0181 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -12,6 +12,7 @@
 #include "daw/daw_traits.h"
 #include "range.h"
 
+#include <array>
 #include <cstddef>
 #include <tuple>
 #include <utility>
-- 
2.43.0


From 9bf3e584e7f0c54ce85bd1c7e775fb96147a3ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 208/359] fix: Enumerate of a const container does not compile

---
 include/daw/pipelines/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 6bed9d9..9640156 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -23,7 +23,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, std::remove_reference_t<R>>(
 			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
@@ -33,7 +33,7 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, std::remove_reference_t<R>>(
 			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
-- 
2.43.0


From 283cc563a53e28fbeae0cd999bf524cb43fbd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:02 +0000
Subject: [PATCH 209/359] fix: Chunk, Slide and Concat claim random access
 without providing it

---
 include/daw/pipelines/chunk.h  | 2 +-
 include/daw/pipelines/concat.h | 3 +--
 include/daw/pipelines/slide.h  | 2 +-
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 8cce62d..b22afe7 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -23,7 +23,7 @@ namespace daw::pipelines::pimpl {
 	struct chunk_view : range_base_t<chunk_view<R>> {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::iterator_t<std::add_const_t<R>>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<iterator>;
diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 127c836..3457a5b 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -27,8 +27,7 @@ namespace daw::pipelines {
 	struct concat_view : range_base_t<concat_view<Ranges...>> {
 		static_assert( sizeof...( Ranges ) > 0,
 		               "concat_view requires at least one iterator specified" );
-		using iterator_category =
-		  common_iterator_category_t<range_category_t<Ranges>...>;
+		using iterator_category = std::forward_iterator_tag;
 		using types_t = std::tuple<daw::remove_cvrvref_t<Ranges>...>;
 		using value_type = std::common_type_t<range_value_t<Ranges>...>;
 		using reference = std::common_reference_t<range_reference_t<Ranges>...>;
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index e542a99..2dc9a24 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -22,7 +22,7 @@ namespace daw::pipelines::pimpl {
 	struct slide_view {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::const_iterator_t<R>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<const_iterator>;
-- 
2.43.0


From 711d63231618e3d1a5b2aefa87b368af4560b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 210/359] fix: safe_advance and safe_next do not compile for
 forward iterators

---
 include/daw/daw_algorithm.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d45a1e2..95b8ca9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -97,7 +97,13 @@ namespace daw {
 			for( ; it != last and dist > 0; --dist, ++it ) {}
 
 			// Move it backwards towards first
-			for( ; it != first and dist < 0; ++dist, --it ) {}
+			if constexpr( std::is_base_of_v<std::bidirectional_iterator_tag,
+			                                typename std::iterator_traits<
+			                                  Iterator>::iterator_category> ) {
+				for( ; it != first and dist < 0; ++dist, --it ) {}
+			} else {
+				(void)first;
+			}
 		}
 
 		template<
-- 
2.43.0


From f926a48da9a196ecd727261dbc35b550e863986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 211/359] fix: CacheLast of a const container does not compile

---
 include/daw/pipelines/cache_last_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 7250bc2..280c8cd 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -140,7 +140,7 @@ namespace daw::pipelines {
 			template<Range R>
 			DAW_CPP23_STATIC_CALL_OP constexpr auto
 			operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return cache_last_view{ DAW_FWD( r ) };
+				return cache_last_view<std::remove_reference_t<R>>{ DAW_FWD( r ) };
 			}
 		};
 	} // namespace pimpl
-- 
2.43.0


From b16d9334dd304ab6795e14d9942e789c67d468b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 212/359] fix: Enumerate of a random access range ends in the
 wrong place

---
 include/daw/pipelines/enumerate.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 9640156..33b86d7 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -19,22 +19,31 @@
 
 namespace daw::pipelines::pimpl {
 	template<typename EnumType = std::size_t>
-	struct Enumerate_t {
+	struct EnumerateFrom_t {
+		EnumType offset = EnumType{ };
 		template<Range R>
-		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
-		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
+		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
+			auto const last = [&]( ) -> EnumType {
+				if constexpr( RandomRange<R> ) {
+					// so that the distance and the end are those of the range
+					return static_cast<EnumType>(
+					  offset + static_cast<EnumType>(
+					             std::distance( std::begin( r ), std::end( r ) ) ) );
+				} else {
+					return max_value<EnumType>;
+				}
+			}( );
 			return zip_view<iota_view<EnumType>, std::remove_reference_t<R>>(
-			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( offset, last ), DAW_FWD( r ) );
 		}
 	};
 
 	template<typename EnumType = std::size_t>
-	struct EnumerateFrom_t {
-		EnumType offset = EnumType{ };
+	struct Enumerate_t {
 		template<Range R>
-		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			return zip_view<iota_view<EnumType>, std::remove_reference_t<R>>(
-			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
+		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
+		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
+			return EnumerateFrom_t<EnumType>{ }( DAW_FWD( r ) );
 		}
 	};
 
-- 
2.43.0


From 66ba023a0749bf91291f44331cf53032203f4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:38 +0000
Subject: [PATCH 213/359] fix: difference of const map and element iterators
 does not compile

---
 include/daw/pipelines/elements.h | 4 ++--
 include/daw/pipelines/map.h      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index e1895ba..9adeae5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -135,7 +135,7 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -327,7 +327,7 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 6cf05e3..50a3ad1 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -146,7 +146,7 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 5274bf750e94f01a310143f7634666cac3537439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:22 +0000
Subject: [PATCH 214/359] fix: Unique over iterators with an explicit default
 constructor does not compile

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 9069bb0..2ee557b 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -28,8 +28,8 @@ namespace daw::pipelines {
 		using difference_type = std::ptrdiff_t;
 
 	private:
-		Iterator m_first = { };
-		Iterator m_last = { };
+		Iterator m_first{ };
+		Iterator m_last{ };
 
 	public:
 		explicit unique_view( ) = default;
-- 
2.43.0


From 6096de0ae4ff4d950170889a081f1afa19c18334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:27 +0000
Subject: [PATCH 215/359] fix: range_t comparison is deleted because its base
 has none

---
 include/daw/pipelines/range.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index dddaa55..fb1510c 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -155,8 +155,14 @@ namespace daw::pipelines {
 			return std::distance( rhs.first, first );
 		}
 
-		constexpr bool operator==( range_t const &rhs ) const = default;
-		constexpr bool operator!=( range_t const &rhs ) const = default;
+		constexpr bool operator==( range_t const &rhs ) const {
+			return first == rhs.first and last == rhs.last;
+		}
+
+		constexpr bool operator!=( range_t const &rhs ) const {
+			return not( *this == rhs );
+		}
+
 		// clang-format off
 		constexpr auto operator<=>( range_t const &rhs ) const = default;
 		// clang-format on
-- 
2.43.0


From 2002581542df84948dc028da023f31ca4f231b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 216/359] fix: Flatten of an lvalue range does not compile

---
 include/daw/pipelines/flatten.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 303477a..47c548c 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -38,7 +38,7 @@ namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
 	struct flatten_view : range_base_t<flatten_view<R>, flatten_view_end_t<R>> {
 		using iterator_t = daw::iterator_t<R>;
-		using sub_iterator_t = daw::iterator_t<daw::iter_value_t<iterator_t>>;
+		using sub_iterator_t = daw::iterator_t<daw::iter_reference_t<iterator_t>>;
 		using iterator_category = std::forward_iterator_tag;
 		using value_type = daw::iter_value_t<sub_iterator_t>;
 		using reference = daw::iter_reference_t<sub_iterator_t>;
@@ -167,7 +167,12 @@ namespace daw::pipelines::pimpl {
 	struct Flatten_t {
 		[[nodiscard]] DAW_ATTRIB_INLINE DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( Range auto &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			return flatten_view{ DAW_FWD( r ) };
+			if constexpr( std::is_lvalue_reference_v<decltype( r )> ) {
+				// refer to the caller's range, it isn't ours to copy
+				return flatten_view{ range_t{ r } };
+			} else {
+				return flatten_view{ DAW_FWD( r ) };
+			}
 		}
 	};
 } // namespace daw::pipelines::pimpl
-- 
2.43.0


From 7a79f5a964c009f83a1f2852c44eb8c0d5847c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 217/359] fix: Filter over a single pass range claims to be
 multi-pass, so To drops elements

---
 include/daw/pipelines/filter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index f8ead4c..e306cb5 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -32,7 +32,9 @@ namespace daw::pipelines {
 		using typename daw_range_base_t::iterator_first_t;
 		using typename daw_range_base_t::iterator_last_t;
 
-		using iterator_category = std::forward_iterator_tag;
+		using iterator_category =
+		  daw::common_iterator_category_t<daw::iter_category_t<Iterator>,
+		                                  std::forward_iterator_tag>;
 		using value_type = daw::iter_value_t<iterator_first_t>;
 		using reference = daw::iter_reference_t<iterator_first_t>;
 		using const_reference = daw::iter_const_reference_t<iterator_first_t>;
-- 
2.43.0


From 62e0f17f69b32c70a38d47857701904ea48020be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:44 +0000
Subject: [PATCH 218/359] fix: ZipMore of an lvalue container leaves iterators
 into a temporary copy of it

---
 include/daw/pipelines/zip.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index ecc0181..176733a 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -288,7 +288,15 @@ namespace daw::pipelines {
 	/// merge them
 	template<Range... Ranges>
 	[[nodiscard]] constexpr auto ZipMore( Ranges &&...rs ) {
-		return [=]<Range R>( R &&r ) {
+		// refer to the caller's ranges, a copy would not outlive this callable
+		auto const hold = []<typename T>( T &&v ) {
+			if constexpr( std::is_lvalue_reference_v<T> ) {
+				return range_t{ v };
+			} else {
+				return daw::remove_cvref_t<T>( DAW_FWD( v ) );
+			}
+		};
+		return [... rs = hold( DAW_FWD( rs ) )]<Range R>( R &&r ) {
 			if constexpr( requires( R ) {
 				              typename iterator_t<R>::i_am_a_daw_zip_iterator_class;
 			              } ) {
-- 
2.43.0


From 409ac08b2f0e144ed2b17f4f41b9a2d5a861270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 219/359] fix: indexed_iterator aborts on jumps to the end and
 on negative distances

---
 include/daw/iterator/daw_indexed_iterator.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..92a1286 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -197,8 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From 6d6b42b7291cea1408a8670a9b5712b777fa4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 220/359] fix: circular_iterator moved back by a whole number
 of rounds points past the end

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..a3c0dfb 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -64,7 +64,7 @@ namespace daw {
 			if( n < 0 ) {
 				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n == 0 ? 0 : sz - n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From 191eb2d2159da4bf6801c92e9f97b50fe83d6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 221/359] fix: circular_iterator operator-> does not give
 access to members

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index a3c0dfb..5b99f4d 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -139,7 +139,7 @@ namespace daw {
 		}
 
 		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+			return get_iterator( m_position );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
-- 
2.43.0


From 895419db9d755cb2e4e848c49740559633061039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 222/359] fix: chunk_iterator moves forward when told to move
 back and counts elements instead of chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..833d09b 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
@@ -118,7 +118,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			return m_chunk_size == 0 ? difference_type{ 0 }
+			                         : ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From dee6d44b513a28d46d2eb517fa9dbce40901ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 223/359] fix: iota_iterator += and -= ignore the step

---
 include/daw/iterator/daw_iota_iterator.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..f2b6413 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,14 +50,12 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			*this = *this + n;
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			*this = *this - n;
 			return *this;
 		}
 
-- 
2.43.0


From bade88a696fc376ee36ef9596bed8d2a12f26193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 224/359] fix: iota_iterator comparisons never see a larger
 value, unsigned ranges look empty

---
 include/daw/iterator/daw_iota_iterator.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index f2b6413..1d676ef 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -121,12 +121,14 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
-				return -1;
+			value_type const other = *rhs;
+			// with a negative step the smaller values come later
+			bool const descending = m_step < difference_type{ 0 };
+			if( std::less<value_type>{ }( m_value, other ) ) {
+				return descending ? 1 : -1;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
-				return 1;
+			if( std::less<value_type>{ }( other, m_value ) ) {
+				return descending ? -1 : 1;
 			}
 			return 0;
 		}
@@ -158,7 +160,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
-- 
2.43.0


From 04388682828923677d6f32d923dff69f4e492215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 225/359] fix: iota_range end does not step back by the step of
 the range

---
 include/daw/iterator/daw_iota_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 1d676ef..a67b36e 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -196,7 +196,7 @@ namespace daw {
 		                               reference last_value,
 		                               difference_type step ) noexcept
 		  : m_first( start_value, step )
-		  , m_last( last_value ) {}
+		  , m_last( last_value, step ) {}
 
 		constexpr iterator begin( ) const noexcept {
 			return m_first;
-- 
2.43.0


From 3c03cf469ce0e569eb13bbe1af86873ae351f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 226/359] fix: integer_range_iterator postfix increment does
 not compile

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From b9b48dacb54af670a02b54a9249404d310fbde3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:27 +0000
Subject: [PATCH 227/359] fix: find_iterator with a function pointer does not
 compile

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..dd06e41 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -38,6 +38,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter( filt ) {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From aabc5862e40d0ec0ed0d93605e76b3abf1d3ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 228/359] fix: find_one_iterator starts at an element no filter
 accepts

---
 include/daw/iterator/daw_find_one_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..609c42d 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
-- 
2.43.0


From c5d640c467f19b3ab6a5d501ac5cc12edbadee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 229/359] fix: repeat_n_char_iterator jumps go the other way
 than steps

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..2268cd7 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p; // counts down, as ++ does
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From 86f8618306cd4ed542da38d404b9e5273c3be437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 230/359] fix: arg_iterator_t::at rejects the first argument

---
 include/daw/iterator/daw_argument_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..b9c8b3a 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -101,7 +101,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
-- 
2.43.0


From 4464bc8c9d860205ea05659a40a6b070ca2fe3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 231/359] fix: arg_iterator_t orderings compare the number of
 arguments

---
 include/daw/iterator/daw_argument_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index b9c8b3a..7efb523 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From 66f2f6a1d052eeb54d701dff995a3243dec93ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 232/359] fix: arg_iterator_t distance to the end is wrong

---
 include/daw/iterator/daw_argument_iterator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 7efb523..c79ddda 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -84,6 +84,13 @@ namespace daw {
 
 		constexpr difference_type
 		operator-( arg_iterator_t const &rhs ) const noexcept {
+			// the end has no arguments of its own
+			if( m_argv == nullptr and rhs.m_argv != nullptr ) {
+				return rhs.m_argc - rhs.m_pos;
+			}
+			if( m_argv != nullptr and rhs.m_argv == nullptr ) {
+				return m_pos - m_argc;
+			}
 			return m_pos - rhs.m_pos;
 		}
 
-- 
2.43.0


From 10353efdf2c8cd25e13c4b6063714773ab3481dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 233/359] fix: checked_iterator_proxy never checks increments
 and decrements

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..451523f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -40,9 +40,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
-- 
2.43.0


From 85c8b934ec8d915b73cbf4073a63703b598b0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 234/359] fix: checked_iterator_proxy postfix steps leave the
 iterator where it was and return the next

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 451523f..7d5e938 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -76,9 +76,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++( *this );
 			return result;
 		}
 
@@ -92,9 +92,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--( *this );
 			return result;
 		}
 
-- 
2.43.0


From 7ec61f164dcc205b2eb282079f3f253b37b1669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 235/359] fix: checked_iterator_proxy operator-> does not
 compile

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 7d5e938..7883189 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -116,7 +116,7 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
@@ -125,7 +125,7 @@ namespace daw {
 			return current.operator->( );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
-- 
2.43.0


From 8b9fa6a75ed7ed42b9909eb35e4686aeb16ffa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 236/359] fix: pointer_iterator postfix increment returns a
 dangling reference, minus is misnamed

---
 include/daw/iterator/daw_pointer_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 56aa10db374aa3f939c624edd9ace7de91dddde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:47 +0000
Subject: [PATCH 237/359] fix: InputIterator assignment leaks the old iterator
 or destroys it as the wrong type

---
 include/daw/iterator/InputIterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..e8a6657 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
-				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				auto const old_vtable = std::exchange( m_vtable, rhs.m_vtable );
+				input_impl::get<input_impl::OpDel, value_type>( old_vtable )( tmp );
 			}
 			return *this;
 		}
@@ -150,6 +150,7 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
+				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( m_iterator );
 				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
 				m_vtable = rhs.m_vtable;
 			}
-- 
2.43.0


From 2fa10a78e304e920073729d8d8c37a4e5df8897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:48 +0000
Subject: [PATCH 238/359] fix: find_one_iterator operator-> drops the index

---
 include/daw/iterator/daw_find_one_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 609c42d..dbc16b0 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -48,7 +48,7 @@ namespace daw {
 		    std::declval<typename std::iterator_traits<
 		      Iterator>::iterator_category>( ) ) )::type;
 		using reference = value_type;
-		using pointer = find_one_element<reference>;
+		using pointer = value_type;
 
 	private:
 		Iterator m_first = Iterator{ };
-- 
2.43.0


From 9ca9f5df7a365ff3dc679fde5a8ca1390c97f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 239/359] fix: graph node proxies are equal only when both the
 node and the graph are

---
 include/daw/daw_graph.h                    | 16 ++++++++--------
 include/daw/deprecated/daw_bounded_graph.h | 10 +++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..77df31c 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -209,15 +209,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -225,7 +225,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -308,15 +308,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -324,7 +324,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
diff --git a/include/daw/deprecated/daw_bounded_graph.h b/include/daw/deprecated/daw_bounded_graph.h
index 0add992..6ad0cb7 100644
--- a/include/daw/deprecated/daw_bounded_graph.h
+++ b/include/daw/deprecated/daw_bounded_graph.h
@@ -235,15 +235,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -251,7 +251,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -342,7 +342,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_bounded_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
-- 
2.43.0


From 216ae4a487303b0d342b14baeaa28990a4404195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 240/359] fix: the negation of an ordering is not an ordering
 to sort children with

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..81d5106 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -96,9 +96,9 @@ namespace daw {
 				{
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
-						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
+						std::sort( std::rbegin( child_nodes ), std::rend( child_nodes ),
 						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+							           return comp( args... );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -182,8 +182,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                       graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From 304271c5672b5caac80927c742452d75b287151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 241/359] fix: dfs_walk visits a node once

---
 include/daw/daw_graph_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 81d5106..b1a425a 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -163,8 +163,10 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.back( ) );
 				path.pop_back( );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					continue;
+				}
 				func( current_node );
-				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From a5c71408bde5dcdb689d65cacfcdb440877b17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 242/359] fix: bfs_walk follows the children of a node once

---
 include/daw/daw_graph_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index b1a425a..6cde83f 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -125,7 +125,9 @@ namespace daw {
 				auto current_node = graph.get_node( path.front( ) );
 				path.pop_front( );
 				func( current_node );
-				visited.insert( current_node.id( ) );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					continue;
+				}
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From 4fece0f79480bcf1b69beb8932700bed81634f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 243/359] fix: reverse ends of the topologically sorted ranges

---
 include/daw/daw_graph_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 6cde83f..67b3701 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -309,7 +309,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
@@ -429,7 +429,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -437,7 +437,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -469,7 +469,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -477,7 +477,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From 655816f2d6ede99b2da5cd80f5dc69a9a73ddac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 244/359] fix: unique_resource::reset deletes the resource once

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..6d601df 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -52,6 +52,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value.reset( );
 			}
 		}
 
-- 
2.43.0


From c858dd9b8fce1198ea3b0e2839dd894c6f0862ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 245/359] fix: assigning an empty unique_resource does not read
 its value

---
 include/daw/daw_unique_resource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 6d601df..d3ce551 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -27,7 +27,11 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( rhs.value ) {
+				reset( rhs.release( ) );
+			} else {
+				reset( );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 1e1b4878dbfab56408d88ad599fc5ddcd19b0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 246/359] fix: read_file closes the file

---
 include/daw/daw_read_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..7d32d21 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -53,6 +53,7 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
@@ -98,6 +99,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
-- 
2.43.0


From 3ba892c1023c3f887a5a740a14d45ef8a974631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 247/359] fix: read_file of wide characters returns as many
 characters as the file holds

---
 include/daw/daw_read_file.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 7d32d21..e2abc29 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -39,7 +39,8 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		  std::basic_string<CharT>(
+		    static_cast<std::size_t>( fsize / sizeof( CharT ) ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -54,7 +55,7 @@ namespace daw {
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From 40849e679fd7df015e0626076d5b5befa08f04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 248/359] fix: mapping a file as constant elements compiles

---
 include/daw/daw_memory_mapped_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..cd4c47f 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -57,7 +57,7 @@ namespace daw::filesystem {
 		struct cleanup_t {
 			constexpr void operator( )( fdata_t &d ) noexcept {
 				if( auto *p = daw::exchange( d.ptr, nullptr ); p ) {
-					munmap( p, d.size );
+					munmap( const_cast<void *>( static_cast<void const *>( p ) ), d.size );
 				}
 				d.size = 0;
 				if( auto fid = daw::exchange( d.file, -1 ); fid >= 0 ) {
-- 
2.43.0


From 064efe20537c3796b332d3a7bf6e12270d3e590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 249/359] fix: a failed mapping is not unmapped

---
 include/daw/daw_memory_mapped_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cd4c47f..5e2da3e 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -104,6 +104,7 @@ namespace daw::filesystem {
 			        MAP_SHARED, m_fdata->file, 0 ) );
 
 			if( m_fdata->ptr == MAP_FAILED ) {
+				m_fdata->ptr = nullptr;
 				m_fdata.reset( );
 				return false;
 			}
-- 
2.43.0


From 82532fdfdbd7b27e792281c2dd08c8000c3c4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 250/359] fix: a file that is not mapped is empty, and sizes of
 mappings count elements

---
 include/daw/daw_memory_mapped_file.h | 22 +++++++++++-----------
 include/daw/daw_unique_resource.h    |  4 ++++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 5e2da3e..20a972d 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -120,47 +120,47 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return m_fdata ? m_fdata->ptr : nullptr;
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return m_fdata ? m_fdata->size / sizeof( T ) : 0U;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			return m_fdata and m_fdata->file >= 0 and m_fdata->ptr != nullptr;
 		}
 
 		template<typename Traits>
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index d3ce551..1cfd099 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -74,6 +74,10 @@ namespace daw {
 			return std::move( *result );
 		}
 
+		constexpr explicit operator bool( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr T &get( ) noexcept {
 			assert( value );
 			return *value;
-- 
2.43.0


From 607e68071f5d4207381c1b6968aabf293edb149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:59 +0000
Subject: [PATCH 251/359] fix: move assignment of CFile takes the other file

---
 include/daw/deprecated/daw_cfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_cfile.h b/include/daw/deprecated/daw_cfile.h
index 3dc588e..78b36fe 100644
--- a/include/daw/deprecated/daw_cfile.h
+++ b/include/daw/deprecated/daw_cfile.h
@@ -30,7 +30,7 @@ namespace daw {
 		  : ptr( exchange( other.ptr, nullptr ) ) {}
 
 		constexpr CFile &operator=( CFile &&rhs ) noexcept {
-			reset( release( ) );
+			reset( rhs.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From 65f5d04f689b78a0d7190243074dbfaef18af86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:04 +0000
Subject: [PATCH 252/359] fix: atomic_wait_if sees what was written before the
 value it returns for

---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..a6a077a 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -176,7 +176,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From de4b03b912b1d02471ccff2b01a350b6839ae12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:04 +0000
Subject: [PATCH 253/359] fix: atomic waits take floating point durations

---
 include/daw/daw_atomic_wait.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index a6a077a..4f39a35 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -110,8 +110,9 @@ namespace daw {
 			auto const is_timed_out = current_time >= final_time;
 			return is_timed_out;
 		};
-		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
-		                                      poll_fn, rel_time );
+		(void)atomic_impl::poll_with_backoff(
+		  atomic_impl::timed_backoff_policy, poll_fn,
+		  std::chrono::ceil<std::chrono::nanoseconds>( rel_time ) );
 		if( current == old ) {
 			return wait_status::timeout;
 		}
@@ -231,8 +232,9 @@ namespace daw {
 			auto const is_timed_out = current_time >= final_time;
 			return is_timed_out;
 		};
-		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
-		                                      poll_fn, rel_time );
+		(void)atomic_impl::poll_with_backoff(
+		  atomic_impl::timed_backoff_policy, poll_fn,
+		  std::chrono::ceil<std::chrono::nanoseconds>( rel_time ) );
 		if( predicate( current_value ) ) {
 			return wait_status::found;
 		}
-- 
2.43.0


From 91cb93985f0eae7cf89f44d985a4fda7b7207fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 254/359] fix: iota_range ends at the first step that is not
 before its end

---
 include/daw/iterator/daw_iota_iterator.h | 53 ++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index a67b36e..837af38 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -124,6 +124,15 @@ namespace daw {
 			value_type const other = *rhs;
 			// with a negative step the smaller values come later
 			bool const descending = m_step < difference_type{ 0 };
+			if constexpr( std::is_floating_point_v<value_type> ) {
+				// the values of the same position differ by what was rounded, less
+				// than half a step
+				auto const half =
+				  ( descending ? -m_step : m_step ) / static_cast<value_type>( 2 );
+				if( m_value - other < half and other - m_value < half ) {
+					return 0;
+				}
+			}
 			if( std::less<value_type>{ }( m_value, other ) ) {
 				return descending ? 1 : -1;
 			}
@@ -181,22 +190,60 @@ namespace daw {
 		iterator m_first{ };
 		iterator m_last{ };
 
+		/// The first value, counting from first in steps, that is not before last
+		static constexpr value_type
+		end_value( value_type first, value_type last,
+		           difference_type step = difference_type{ 1 } ) noexcept {
+			bool const descending = step < difference_type{ 0 };
+			if( not( descending ? last < first : first < last ) ) {
+				return first;
+			}
+			if constexpr( std::is_integral_v<value_type> ) {
+				auto const ufirst = static_cast<size_type>( first );
+				auto const ulast = static_cast<size_type>( last );
+				auto const span = static_cast<size_type>(
+				  descending ? ufirst - ulast : ulast - ufirst );
+				auto const ustep = static_cast<size_type>(
+				  descending ? size_type{ 0 } - static_cast<size_type>( step )
+				             : static_cast<size_type>( step ) );
+				if( ustep == 0 or span % ustep == 0 ) {
+					return last;
+				}
+				auto const extra = static_cast<size_type>( ustep - span % ustep );
+				return static_cast<value_type>( static_cast<size_type>(
+				  descending ? ulast - extra : ulast + extra ) );
+			} else if constexpr( std::is_floating_point_v<value_type> ) {
+				auto const steps = ( last - first ) / step;
+				if( not( steps < static_cast<value_type>( 1ULL << 62U ) ) ) {
+					return last;
+				}
+				auto count = static_cast<value_type>(
+				  static_cast<unsigned long long>( steps ) );
+				if( count < steps ) {
+					count += static_cast<value_type>( 1 );
+				}
+				return first + count * step;
+			} else {
+				return last;
+			}
+		}
+
 	public:
 		explicit iota_range( ) = default;
 		explicit constexpr iota_range( reference last_value ) noexcept
 		  : m_first( 0 )
-		  , m_last( last_value ) {}
+		  , m_last( end_value( value_type( 0 ), last_value ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value ) noexcept
 		  : m_first( start_value )
-		  , m_last( last_value ) {}
+		  , m_last( end_value( start_value, last_value ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value,
 		                               difference_type step ) noexcept
 		  : m_first( start_value, step )
-		  , m_last( last_value, step ) {}
+		  , m_last( end_value( start_value, last_value, step ), step ) {}
 
 		constexpr iterator begin( ) const noexcept {
 			return m_first;
-- 
2.43.0


From 1598be6c00865a972882fe37259aab2b211fdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 255/359] fix: a moved from ScopeGuard does not run its
 function

---
 include/daw/daw_scope_guard.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..b8825ea 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -40,8 +40,24 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			// a moved from optional still holds a value
+			other.m_function.reset( );
+		}
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &operator=( ScopeGuard &&rhs ) {
+			if( this != &rhs ) {
+				if( m_function ) {
+					run_now( );
+				}
+				m_function = std::move( rhs.m_function );
+				rhs.m_function.reset( );
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From 2ce0220a286cd86268b4f1010d507d7a341fef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 256/359] fix: a function of a ScopeGuard that throws from
 run_now does not run again

---
 include/daw/daw_scope_guard.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index b8825ea..5287f56 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -77,8 +77,10 @@ namespace daw {
 		DAW_ATTRIB_INLINE constexpr void
 		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
 			assert( m_function );
-			(void)( *m_function )( );
+			// a function that throws has run, it must not run again on destruction
+			auto function = std::move( *m_function );
 			cancel( );
+			(void)function( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
-- 
2.43.0


From 2e1ae152fa45700540260f20362a8779d1878639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 257/359] fix: ScopeGuard::dismiss compiles

---
 include/daw/daw_scope_guard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 5287f56..715cb01 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -91,8 +91,8 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 1929583fa6a9c366343333a450a4b88740fcc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 258/359] fix: on_exit_success runs in scopes entered while
 unwinding

---
 include/daw/daw_scope_guard.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 715cb01..02013fe 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -111,6 +111,19 @@ namespace daw {
 	template<typename Handler>
 	class on_exit_success {
 		Handler on_exit_handler;
+#if not defined( DAW_DONT_USE_EXCEPTIONS )
+		// Exceptions that were already being handled when the scope was entered
+		int uncaught_count = current_uncaught_count( );
+
+		static constexpr int current_uncaught_count( ) noexcept {
+#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
+			if( DAW_IS_CONSTANT_EVALUATED( ) ) {
+				return 0;
+			}
+#endif
+			return std::uncaught_exceptions( );
+		}
+#endif
 
 	public:
 		DAW_ATTRIB_INLINE constexpr on_exit_success( Handler &&h ) noexcept(
@@ -129,7 +142,7 @@ namespace daw {
 			} else {
 #endif
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-				if( std::uncaught_exceptions( ) == 0 ) {
+				if( std::uncaught_exceptions( ) <= uncaught_count ) {
 #endif
 					on_exit_handler( );
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-- 
2.43.0


From 99b2cb87aaba796b99396f0db19be1088fe3d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 259/359] fix: assigning a countable_resource_t does not count
 an object and returns

---
 include/daw/daw_countable_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..fec2ee0 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,8 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			// No object is made, the count stays the same
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From 7bb1e3f505ddb4e6ad0365759fe8dd3f7fe5e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 260/359] fix: visit of a valueless std::variant throws
 bad_variant_access

---
 include/daw/daw_visit.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..a3b6cda 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -86,6 +86,10 @@ namespace daw {
 		}
 
 	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
+
+		DAW_MAKE_REQ_TRAIT(
+		  has_valueless_by_exception,
+		  std::declval<T const &>( ).valueless_by_exception( ) );
 	  
     template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
 	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
@@ -93,8 +97,13 @@ namespace daw {
 		}
 
     template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
+	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & v ) {
+			if constexpr( has_valueless_by_exception<Variant> ) {
+				return v.valueless_by_exception( );
+			} else {
+				(void)v;
+				return false;
+			}
 		}
 	  
 		template<typename>
@@ -401,7 +410,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 87cc5c8c621e562285386630bf9ac1eea7a11c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 261/359] fix: visiting an rvalue variant visits an rvalue

---
 include/daw/daw_visit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index a3b6cda..18e2c86 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -57,7 +57,7 @@ namespace daw {
 			using get_nt_details::get_if;
 			auto *ptr = get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( not std::is_lvalue_reference_v<Variant> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -65,7 +65,7 @@ namespace daw {
 		} else if constexpr( get_nt_details::has_std_get_if_v<variant_t> ) {
 			auto *ptr = std::get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( not std::is_lvalue_reference_v<Variant> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
-- 
2.43.0


From 234017c8bc10e8c3abba20562f091e68168a806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 262/359] fix: get from class type elements and from rvalues of
 tuple2 compiles

---
 include/daw/daw_tuple2.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..2589a8e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
-- 
2.43.0


From 5d06cf8010490c43b0cd7c680ae6f6051a327963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 263/359] fix: tuple2_cat of one tuple and of rvalues compiles

---
 include/daw/daw_tuple2.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index 2589a8e..8fcbac4 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -210,8 +210,8 @@ namespace daw {
 	}
 
 	template<typename Tuple>
-	constexpr tuple2<> tuple2_cat( Tuple &&tp ) {
-		return { tp };
+	constexpr daw::remove_cvref_t<Tuple> tuple2_cat( Tuple &&tp ) {
+		return DAW_FWD( tp );
 	}
 
 	template<typename T0, typename T1, typename... Tps>
@@ -221,7 +221,8 @@ namespace daw {
 		    std::index_sequence<tuple2_size_v<daw::remove_cvref_t<T0>>,
 		                        tuple2_size_v<daw::remove_cvref_t<T1>>,
 		                        tuple2_size_v<daw::remove_cvref_t<Tps>>...>>{ },
-		  forward_as_tuple2( DAW_FWD( t0 ), DAW_FWD( t1 ), DAW_FWD( tps )... ) );
+		  tuple2<T0 &&, T1 &&, Tps &&...>{ DAW_FWD( t0 ), DAW_FWD( t1 ),
+		                                   DAW_FWD( tps )... } );
 	}
 
 	namespace tuple2_impl {
-- 
2.43.0


From 85cd8db79e75d714093cfe065e90e25ea8c56a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 264/359] fix: apply on an rvalue tuple2 passes rvalues and
 does not move the function

---
 include/daw/daw_tuple2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index 8fcbac4..04f781e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -259,7 +259,7 @@ namespace daw {
 	template<typename Func, typename... Ts>
 	inline constexpr decltype( auto ) apply( tuple2<Ts...> &&tp, Func &&fn ) {
 		return tuple2_impl::apply_impl(
-		  tp, std::move( fn ),
+		  std::move( tp ), DAW_FWD( fn ),
 		  std::make_index_sequence<tuple2_size_v<tuple2<Ts...>>>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From aa964d9a10139d62a592a7b5a87de23d2f2884b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 265/359] fix: get on an rvalue daw::tuple gives an rvalue

---
 include/daw/daw_tuple.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 896d748..9fa356f 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -48,11 +48,11 @@ namespace daw::impl {
 			}
 
 			constexpr T &&get( daw::index_constant<N> ) && noexcept {
-				return std::move( m_value );
+				return static_cast<T &&>( m_value );
 			}
 
 			constexpr T const &&get( daw::index_constant<N> ) const && noexcept {
-				return std::move( m_value );
+				return static_cast<T const &&>( m_value );
 			}
 		};
 
@@ -166,12 +166,13 @@ namespace daw {
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type &&>( *this ).get( daw::index_constant_v<N> );
 		}
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) const && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type const &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<typename... Vs>
@@ -218,7 +219,12 @@ namespace daw {
 
 	template<std::size_t N, typename... Ts>
 	constexpr decltype( auto ) get( tuple<Ts...> &&tp ) {
-		return tp.template get<N>( );
+		return std::move( tp ).template get<N>( );
+	}
+
+	template<std::size_t N, typename... Ts>
+	constexpr decltype( auto ) get( tuple<Ts...> const &&tp ) {
+		return std::move( tp ).template get<N>( );
 	}
 
 	template<typename... Ts>
-- 
2.43.0


From 39580f8604a9fd9469650405234e3f68910477b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 266/359] fix: copying a mutable daw::tuple of one element
 compiles

---
 include/daw/daw_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 9fa356f..492cdb8 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -89,7 +89,7 @@ namespace daw::impl {
 
 			template<typename U,
 			         std::enable_if_t<
-			           (not std::is_same_v<tuple_storage, daw::remove_cvref_t<U>>),
+			           (not std::is_base_of_v<tuple_storage, daw::remove_cvref_t<U>>),
 			           std::nullptr_t> = nullptr>
 			constexpr tuple_storage( U &&value )
 			  : base_value{ DAW_FWD( value ) } {}
-- 
2.43.0


From 930986cb0edd3f6e273ecbfd553b7a09fbabe4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 267/359] fix: daw::tuple of final empty classes compiles

---
 include/daw/daw_tuple.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 492cdb8..11a4431 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -77,8 +77,8 @@ namespace daw::impl {
 		};
 
 		template<std::size_t N, typename T>
-		struct tuple_storage<N, T> : tuple_value<N, T, std::is_empty_v<T>> {
-			using base_value = tuple_value<N, T, std::is_empty_v<T>>;
+		struct tuple_storage<N, T> : tuple_value<N, T, std::is_empty_v<T> and not std::is_final_v<T>> {
+			using base_value = tuple_value<N, T, std::is_empty_v<T> and not std::is_final_v<T>>;
 			using base_value::get;
 
 			static constexpr tuple_tag<T> get_type( daw::index_constant<N> ) {
@@ -97,9 +97,9 @@ namespace daw::impl {
 
 		template<std::size_t N, typename T, typename T1, typename... Ts>
 		struct tuple_storage<N, T, T1, Ts...>
-		  : tuple_value<N, T, std::is_empty_v<T>>, tuple_storage<N + 1, T1, Ts...> {
+		  : tuple_value<N, T, std::is_empty_v<T> and not std::is_final_v<T>>, tuple_storage<N + 1, T1, Ts...> {
 
-			using base_value = tuple_value<N, T, std::is_empty_v<T>>;
+			using base_value = tuple_value<N, T, std::is_empty_v<T> and not std::is_final_v<T>>;
 			using base_storage = tuple_storage<N + 1, T1, Ts...>;
 			using base_storage::get;
 			using base_storage::get_type;
-- 
2.43.0


From 44634b74fb84c65395a2e160ba4cba6a96a0df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 268/359] fix: apply_at on an rvalue tuple compiles

---
 include/daw/daw_tuple_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 31d8bf6..ec25ca7 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -456,7 +456,8 @@ namespace daw {
 		constexpr void apply_at( std::tuple<Args...> &&tp, size_t index,
 		                         Funcs &&...funcs ) {
 			tuple_details::apply_at_impl( std::move( tp ), index,
-			                              daw::overload( DAW_FWD( funcs )... ) );
+			                              daw::overload( DAW_FWD( funcs )... ),
+			                              std::index_sequence_for<Args...>{ } );
 		}
 
 		namespace tuple_details {
-- 
2.43.0


From 490b2925f7d6617419a305b92cfa8a0ff3902f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 269/359] fix: apply takes lvalue tuples

---
 include/daw/daw_apply.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..0a94240 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "cpp_17.h"
+#include "daw_remove_cvref.h"
 #include "daw_tuple_traits.h"
 
 #include <type_traits>
@@ -145,11 +146,11 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		static_assert( is_tuple_v<daw::remove_cvref_t<Tuple>>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<daw::remove_cvref_t<Tuple>> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
@@ -157,7 +158,8 @@ namespace daw {
 				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size =
+			  std::tuple_size_v<daw::remove_cvref_t<Tuple>>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From 120aad75d6f41c2660f8f41257ba2f1441aff8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 270/359] fix: piecewise_factory: setting an argument by index
 does not pass class types through an ellipsis

---
 include/daw/daw_piecewise_factory.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index 241d128..2186e4c 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -129,10 +129,12 @@ namespace daw {
 			  },
 			  [&]( std::function<value_t( )> &&f ) {
 				  std::get<N>( tp ) = value_t{ std::move( f )( ) };
-			  },
-			  []( ... ) noexcept {} );
+			  } );
 
-			setter( DAW_FWD( value ) );
+			// a value that cannot be used for this argument is ignored
+			if constexpr( std::is_invocable_v<decltype( setter ), Value> ) {
+				setter( DAW_FWD( value ) );
+			}
 		}
 
 		template<typename T, typename... Args>
-- 
2.43.0


From d88a43f08c99f05c9ce2586844a16ce61e5ceb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:59 +0000
Subject: [PATCH 271/359] fix: daw::get with a run-time index works for tuples
 with repeated types

---
 include/daw/daw_tuple_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index ec25ca7..859a34d 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -44,8 +44,8 @@ namespace daw {
 				if( index != Tpos ) {
 					return get_impl<Tpos + 1, Result>( DAW_FWD( tp ), index );
 				}
-				return daw::construct_a<Result>(
-				  std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
+				return Result( std::in_place_index<Tpos>,
+				               std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
 			}
 		} // namespace tuple_details
 	} // namespace tuple
-- 
2.43.0


From a79535aa6c4bc0c48946930b5ededa86995d9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 272/359] fix: span<T const>::crend is the end of the reversed
 range

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 8e59a79ae040559738ffee84cc2f5b5eb7a54886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 273/359] fix: span<T const>::pop can be called

---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 0a40c94..e0491bd 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -192,8 +192,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr bool
-		pop( T &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
+		constexpr bool pop( value_type &value ) noexcept(
+		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( empty( ) ) {
 				return false;
 			}
-- 
2.43.0


From 99884710fbe1507e586d3593283ab102d2eb4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 274/359] fix: subspan of a const span<T> is a span<T const>
 that may start at the end

---
 include/daw/daw_span.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index e0491bd..543fd81 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -473,11 +473,12 @@ namespace daw {
 			return { data( ) + pos, count };
 		}
 
-		constexpr span subspan( size_type pos = 0,
-		                        size_type count = max_value<size_type> ) const {
+		constexpr span<T const>
+		subspan( size_type pos = 0,
+		         size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From 4a6dea149b3285c8ba13fd732a189afd6379e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 275/359] fix: contiguous_view::subspan ends count elements
 after its start

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..48c232c 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = (std::min)( offset, size( ) );
+			auto const sz = (std::min)( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = (std::min)( offset, size( ) );
+			auto const sz = (std::min)( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From ed6c89254581645ba3b0f727b21f24e68191dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 276/359] fix: iter_view::subspan ends count elements after its
 start

---
 include/daw/daw_iter_view.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..5a10d4b 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,12 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			offset = (std::min)( offset, size( ) );
+			auto const sz = (std::min)( count, size( ) - offset );
+			auto const first =
+			  std::next( begin( ), static_cast<difference_type>( offset ) );
+			return iter_view(
+			  first, std::next( first, static_cast<difference_type>( sz ) ) );
 		}
 
 		constexpr size_type size( ) const {
-- 
2.43.0


From be132dde9b424602290f2ead9b2af5a60be14c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 277/359] fix: iter_view: popping up to an element that is not
 there does not run into an assertion

---
 include/daw/daw_iter_view.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 5a10d4b..bc34e26 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -210,7 +210,7 @@ namespace daw {
 		}
 
 		constexpr void remove_prefix( size_type count, dont_clip_to_bounds_t ) {
-			assert( count < size( ) );
+			assert( count <= size( ) );
 			std::advance( m_first, static_cast<difference_type>( count ) );
 			m_size -= count;
 		}
@@ -341,7 +341,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
@@ -357,7 +359,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
-- 
2.43.0


From 22902744f26ea999f166b6fb0c66930cab2dce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:55 +0000
Subject: [PATCH 278/359] fix: span_writer::subspan can be called

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From 8c0b71e42a796aff3f82db313ea226f43950e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 279/359] fix: contiguous_view::pop_front_until and
 pop_front_while that discard can be called

---
 include/daw/daw_contiguous_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 48c232c..9ba98cf 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -374,9 +374,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -390,9 +390,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
@@ -751,9 +751,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -767,9 +767,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
-- 
2.43.0


From 1c27f0779852aedae0d9ac3a852ec37e42bdf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:47 +0000
Subject: [PATCH 280/359] fix: ring_adaptor::emplace_back adds the element at
 the back

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From d4f2af7d8df29ab914aad7bd7b7f318436c05413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 281/359] fix: basic_bit_queue: pushing and popping as many
 bits as the queue holds

---
 include/daw/daw_bit_queues.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..a7a0d92 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,11 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			if( bits < capacity( ) ) {
+				m_queue = static_cast<queue_type>( m_queue << bits );
+			} else {
+				m_queue = 0;
+			}
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +103,11 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			if( bits < capacity( ) ) {
+				m_queue = static_cast<queue_type>( m_queue >> bits );
+			} else {
+				m_queue = 0;
+			}
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 2107a54265bf81cb642e12a3c3f51d3aa42ade00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 282/359] fix: basic_bit_queue::pop_back keeps the bits of
 queues wider than a value

---
 include/daw/daw_bit_queues.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index a7a0d92..7769437 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -115,11 +115,15 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
+			if( bits == 0 ) {
+				return 0;
+			}
+			auto const shift = size( ) - bits;
+			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
+			auto const result =
+			  static_cast<value_type>( ( m_queue >> shift ) & mask );
+			m_queue = static_cast<queue_type>(
+			  m_queue & ~static_cast<queue_type>( mask << shift ) );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 5ff8169416e71e212a3b819f7d8ca00534f39be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 283/359] fix: pop_value can be called and takes as many bits
 as its type has

---
 include/daw/daw_bit_stream.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 18b719d..f609931 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -80,19 +80,25 @@ namespace daw {
 	template<typename T, typename BitStream>
 	auto pop_value( BitStream &bs, size_t bits_needed ) {
 		daw::exception::dbg_throw_on_false(
-		  bits_needed <= bit_count_t<T>,
+		  bits_needed <= bit_count_v<T>,
 		  "Attempt to extra more bits than can fit" );
 
 		using value_type = typename BitStream::value_type;
 		T result = 0;
+		auto const append = [&result]( value_type bits, size_t count ) {
+			if( count < bit_count_v<T> ) {
+				result = static_cast<T>( result << count );
+			} else {
+				result = 0;
+			}
+			result = static_cast<T>( result | static_cast<T>( bits ) );
+		};
 		while( bits_needed >= bit_count_v<value_type> ) {
-			result <<= bit_count_v<value_type>;
-			result |= bs.pop_bits( );
+			append( bs.pop_bits( ), bit_count_v<value_type> );
 			bits_needed -= bit_count_v<value_type>;
 		}
 		if( bits_needed > 0 ) {
-			result <<= bits_needed;
-			result |= bs.pop_bits( bits_needed );
+			append( bs.pop_bits( bits_needed ), bits_needed );
 		}
 		return result;
 	}
-- 
2.43.0


From 0eda161772c342cc2e88c438caa20ed456fc5d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 284/359] fix: skip_bits also skips the bits that are less than
 an element

---
 include/daw/daw_bit_stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index f609931..2cb96f1 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -116,6 +116,9 @@ namespace daw {
 			bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
+		if( bits_needed > 0 ) {
+			bs.pop_bits( bits_needed );
+		}
 	}
 
 	template<typename BitStream>
-- 
2.43.0


From 2b1b218b563ff7169731f126b0f14ce22ab60efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 285/359] fix: skip_until with a number of bits compares that
 many bits

---
 include/daw/daw_bit_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 2cb96f1..65df197 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -134,9 +134,9 @@ namespace daw {
 		daw::exception::dbg_throw_on_true( bit_count < 1,
 		                                   "Attempt to pop less than 1 bits" );
 
-		auto cur_val = pop_value<TestValue>( bs );
+		auto cur_val = pop_value<TestValue>( bs, bit_count );
 		while( bs and cur_val != v ) {
-			cur_val = pop_value<TestValue>( bs );
+			cur_val = pop_value<TestValue>( bs, bit_count );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
 		                                   "Not enough data in stream" );
-- 
2.43.0


From 6c5a8674086975269ea5b9b0e2b6eb147c8b5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 286/359] fix: basic_nibble_queue::capacity and full can be
 called at run time

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 7769437..1de1949 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -158,7 +158,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return decltype( m_queue )::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 2316b6189abc33b72658992874545784b8a47f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 287/359] fix: hex of a non-integral value writes its digits
 without gaps

---
 include/daw/daw_utility.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 825714e..18dd99a 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -525,7 +525,6 @@ namespace daw {
 		auto chr_ptr = reinterpret_cast<char const *>( &val );
 		for( std::size_t n = 0; n < sizeof( T ); ++n ) {
 			it_out = hex( *chr_ptr, it_out );
-			++it_out;
 			++chr_ptr;
 		}
 		return it_out;
-- 
2.43.0


From 2d0094d25c7b87b3d6c2f416a76a693d4c49549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 288/359] fix: hex of a range of non-integral values writes the
 values of the range

---
 include/daw/daw_utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 18dd99a..66d0890 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -570,7 +570,7 @@ namespace daw {
 	                                  ForwardIterator2 const last_in,
 	                                  OutputIterator first_out ) noexcept {
 		for( ; first_in != last_in; ++first_in ) {
-			first_out = hex( *first_out, first_out );
+			first_out = hex( *first_in, first_out );
 		}
 		return first_out;
 	}
-- 
2.43.0


From 589486a56df74e698b4462878fe2f5067a459b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 289/359] fix: vprintln can be called

---
 include/daw/daw_print.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_print.h b/include/daw/daw_print.h
index 2830d10..d4e2512 100644
--- a/include/daw/daw_print.h
+++ b/include/daw/daw_print.h
@@ -54,7 +54,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprintln( FILE *f, std::string fmt,
 	                                   Args &&...args ) {
 		fmt += '\n';
-		daw::print( f, fmt, DAW_FWD( args )... );
+		daw::vprint( f, fmt, DAW_FWD( args )... );
 	}
 
 	template<typename... Args>
@@ -67,7 +67,7 @@ namespace daw {
 	template<typename... Args>
 	DAW_ATTRIB_NOINLINE void vprintln( std::string fmt, Args &&...args ) {
 		fmt += '\n';
-		daw::print( stdout, fmt, DAW_FWD( args )... );
+		daw::vprint( stdout, fmt, DAW_FWD( args )... );
 	}
 
 	DAW_ATTRIB_INLINE void println( ) {
-- 
2.43.0


From ef307b8601ca3b7bc9afb0da44df1775f4c83126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 290/359] fix: trim_left of a string that is all delimiters
 gives an empty string

---
 include/daw/deprecated/daw_string.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index e7ca742..3a2a7c5 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -322,7 +322,11 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return str;
 		}
-		return str.substr( str.find_first_not_of( delimiters ) );
+		auto const first = str.find_first_not_of( delimiters );
+		if( first == std::basic_string<CharT, Traits, Allocator>::npos ) {
+			return std::basic_string<CharT, Traits, Allocator>{ };
+		}
+		return str.substr( first );
 	}
 
 	template<typename CharT = char,
@@ -335,7 +339,12 @@ namespace daw::string {
 		if( str.empty( ) ) {
 			return;
 		}
-		str = str.substr( str.find_first_not_of( delimiters ) );
+		auto const first = str.find_first_not_of( delimiters );
+		if( first == std::basic_string<CharT, Traits, Allocator>::npos ) {
+			str.clear( );
+			return;
+		}
+		str = str.substr( first );
 	}
 
 	template<class StringElementType, class StringType>
-- 
2.43.0


From 94670e01615e384193a828db08cc796237d32995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:22 +0000
Subject: [PATCH 291/359] fix: ends_with compares the whole ending

---
 include/daw/deprecated/daw_string.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string.h b/include/daw/deprecated/daw_string.h
index 3a2a7c5..1e7d0bf 100644
--- a/include/daw/deprecated/daw_string.h
+++ b/include/daw/deprecated/daw_string.h
@@ -217,8 +217,10 @@ namespace daw::string {
 
 		bool operator( )( StringType const &src,
 		                  StringType const &ending ) const noexcept {
-			auto pos = src.find_last_of( ending );
-			return string_details::string_t::npos != pos and pos == src.size( ) - 1;
+			return ending.size( ) <= src.size( ) and
+			       src.compare( src.size( ) - ending.size( ),
+			                    ending.size( ),
+			                    ending ) == 0;
 		}
 	};
 
-- 
2.43.0


From 2274ca0252457bfdf1f764af34d4a81cb7db8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 292/359] fix: fmt_range and fmt_tuple accept an argument index
 with a format specification

---
 include/daw/daw_format_range.h | 13 ++++++++-----
 include/daw/daw_format_tuple.h | 14 ++++++++------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index ff5a6cf..bccb93e 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -17,6 +17,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -59,7 +60,7 @@ namespace daw {
 namespace std {
 	template<daw::Range R, typename CharT>
 	struct formatter<daw::fmt_range<R, CharT>, CharT> {
-		daw::string_view flags = { };
+		daw::string_view spec = { };
 
 		formatter( ) = default;
 
@@ -70,7 +71,7 @@ namespace std {
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				spec = { };
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -103,9 +104,10 @@ namespace std {
 				f.remove_prefix( );
 			}
 			auto const sz = std::distance( first, last );
-			flags = daw::string_view( first, static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
+			if( sz == 0 ) {
+				throw std::format_error( "unmatched '{' in format string" );
+			}
+			spec = daw::string_view( first, static_cast<std::size_t>( sz - 1 ) );
 			return std::next( ctx.begin( ), sz - 1 );
 			//			return ctx.end( ) - 1;
 		}
@@ -121,6 +123,7 @@ namespace std {
 				  std::begin( c.container ), std::end( c.container ), ctx.out( ) );
 				return out;
 			} else {
+				auto const flags = "{:" + static_cast<std::string>( spec ) + "}";
 				auto out = ctx.out( );
 				out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
 				bool is_first = true;
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 7c8e2b2..81a71ab 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -14,6 +14,7 @@
 
 #include <cassert>
 #include <format>
+#include <string>
 #include <string_view>
 
 namespace daw {
@@ -53,7 +54,7 @@ namespace daw {
 namespace std {
 	template<typename T, typename CharT>
 	struct formatter<daw::fmt_tuple<T, CharT>, CharT> {
-		daw::string_view flags = { };
+		daw::string_view spec = { };
 
 		formatter( ) = default;
 
@@ -63,7 +64,7 @@ namespace std {
 			auto const ctx_sz = static_cast<std::size_t>( std::distance( std::begin( ctx ), std::end( ctx ) ) );
 			auto f = daw::basic_string_view( ctx_b, ctx_sz );
 			if( ctx.begin( ) == ctx.end( ) or *ctx.begin( ) == '}' ) {
-				flags = "{}";
+				spec = { };
 				return ctx.begin( );
 			}
 			int brace_count = 1;
@@ -95,17 +96,18 @@ namespace std {
 				}
 				f.remove_prefix( );
 			}
-			flags =
-			  daw::string_view( first, last ); // static_cast<std::size_t>( sz ) );
-			flags.expand_prefix( 2 );
-			assert( flags.front( ) == '{' );
 			auto const sz = last - first;
+			if( sz == 0 ) {
+				throw std::format_error( "unmatched '{' in format string" );
+			}
+			spec = daw::string_view( first, static_cast<std::size_t>( sz - 1 ) );
 			return ctx.begin( ) + sz - 1;
 			//			return ctx.end( ) - 1;
 		}
 
 		template<typename Ctx>
 		Ctx::iterator format( daw::fmt_tuple<T, CharT> c, Ctx &ctx ) const {
+			auto const flags = "{:" + static_cast<std::string>( spec ) + "}";
 			auto out = ctx.out( );
 			out = std::copy( std::data( c.Left ), daw::data_end( c.Left ), out );
 			bool is_first = true;
-- 
2.43.0


From daf7a9402fcea87f42440977f8644d3ea3b0ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 293/359] fix: fmt_range and fmt_tuple accept a quote as the
 fill character

---
 include/daw/daw_format_range.h | 20 ++++++--------------
 include/daw/daw_format_tuple.h | 20 ++++++--------------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/daw/daw_format_range.h b/include/daw/daw_format_range.h
index bccb93e..9bd24b7 100644
--- a/include/daw/daw_format_range.h
+++ b/include/daw/daw_format_range.h
@@ -75,27 +75,19 @@ namespace std {
 				return ctx.begin( );
 			}
 			int brace_count = 1;
-			bool in_quote = false;
 			auto const *first = f.data( );
 			auto const *last = first;
 			while( not f.empty( ) ) {
 				switch( f.front( ) ) {
-				case '"':
-					in_quote = not in_quote;
-					break;
 				case '{':
-					if( not in_quote ) {
-						++brace_count;
-					}
+					++brace_count;
 					break;
 				case '}':
-					if( not in_quote ) {
-						--brace_count;
-						assert( brace_count >= 0 );
-						if( brace_count == 0 ) {
-							last = f.data( ) + 1;
-							f.remove_prefix( f.size( ) - 1 );
-						}
+					--brace_count;
+					assert( brace_count >= 0 );
+					if( brace_count == 0 ) {
+						last = f.data( ) + 1;
+						f.remove_prefix( f.size( ) - 1 );
 					}
 					break;
 				default:
diff --git a/include/daw/daw_format_tuple.h b/include/daw/daw_format_tuple.h
index 81a71ab..f38cd56 100644
--- a/include/daw/daw_format_tuple.h
+++ b/include/daw/daw_format_tuple.h
@@ -68,27 +68,19 @@ namespace std {
 				return ctx.begin( );
 			}
 			int brace_count = 1;
-			bool in_quote = false;
 			auto const *first = f.data( );
 			auto const *last = first;
 			while( not f.empty( ) ) {
 				switch( f.front( ) ) {
-				case '"':
-					in_quote = not in_quote;
-					break;
 				case '{':
-					if( not in_quote ) {
-						++brace_count;
-					}
+					++brace_count;
 					break;
 				case '}':
-					if( not in_quote ) {
-						--brace_count;
-						assert( brace_count >= 0 );
-						if( brace_count == 0 ) {
-							last = f.data( ) + 1;
-							f.remove_prefix( f.size( ) - 1 );
-						}
+					--brace_count;
+					assert( brace_count >= 0 );
+					if( brace_count == 0 ) {
+						last = f.data( ) + 1;
+						f.remove_prefix( f.size( ) - 1 );
 					}
 					break;
 				default:
-- 
2.43.0


From d2d054bc3ed8d52b5326efc8c128aad9b726e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:43 +0000
Subject: [PATCH 294/359] fix: find_all_where collects the positions of the
 matching elements

---
 include/daw/daw_utility.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_utility.h b/include/daw/daw_utility.h
index 66d0890..57139ab 100644
--- a/include/daw/daw_utility.h
+++ b/include/daw/daw_utility.h
@@ -285,7 +285,11 @@ namespace daw {
 	[[nodiscard]] std::vector<Iterator1>
 	find_all_where( Iterator1 first, Iterator2 const last, Pred predicate ) {
 		std::vector<Iterator1> results{ };
-		std::copy_if( first, last, std::back_inserter( results ), predicate );
+		for( ; first != last; ++first ) {
+			if( predicate( *first ) ) {
+				results.push_back( first );
+			}
+		}
 		return results;
 	}
 
-- 
2.43.0


From 5be803d026ed2ddfccf61376d68c936f424ddc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 295/359] fix: safe_pointer dereferences the element it points
 at

---
 include/daw/daw_safe_pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..5f4a5a0 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -168,7 +168,7 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
-			return m_range.front( );
+			return *m_pointer;
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) const noexcept {
-- 
2.43.0


From 548e69ad3810cebafb20029f47f50c1ddd2b4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 296/359] fix: safe_pointer can be compared equal with nullptr

---
 include/daw/daw_safe_pointer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 5f4a5a0..5febef2 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -401,13 +401,13 @@ namespace daw::memory {
 		}
 	};
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( std::nullptr_t,
 	                           safe_pointer<T> const &rhs ) noexcept {
 		return not rhs.get( );
 	}
 
-	template<typename T, typename D>
+	template<typename T>
 	constexpr bool operator==( safe_pointer<T> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return not lhs.get( );
-- 
2.43.0


From 418aa11d140b25d861873e65578390a38d7429c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 297/359] fix: safe_pointer can be converted to an integer

---
 include/daw/daw_safe_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 5febef2..e15993c 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -146,9 +146,9 @@ namespace daw::memory {
 		}
 
 		template<typename Integer,
-		         std::enable_if<( std::is_integral_v<Integer> and
-		                          sizeof( Integer ) == sizeof( std::uintptr_t ) ),
-		                        std::nullptr_t> = nullptr>
+		         std::enable_if_t<( std::is_integral_v<Integer> and
+		                            sizeof( Integer ) == sizeof( std::uintptr_t ) ),
+		                          std::nullptr_t> = nullptr>
 		[[nodiscard]] inline explicit operator Integer( ) const {
 			DAW_SAFE_POINTER_ENSURE( *this );
 			return reinterpret_cast<Integer>( get( ) );
@@ -350,9 +350,9 @@ namespace daw::memory {
 		}
 
 		template<typename Integer,
-		         std::enable_if<( std::is_integral_v<Integer> and
-		                          sizeof( Integer ) == sizeof( std::uintptr_t ) ),
-		                        std::nullptr_t> = nullptr>
+		         std::enable_if_t<( std::is_integral_v<Integer> and
+		                            sizeof( Integer ) == sizeof( std::uintptr_t ) ),
+		                          std::nullptr_t> = nullptr>
 		[[nodiscard]] inline explicit operator Integer( ) const {
 			DAW_SAFE_POINTER_ENSURE( *this );
 			return reinterpret_cast<Integer>( get( ) );
-- 
2.43.0


From 546d1237fc92b3e832ccf4b43a80b112fab1c36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:26 +0000
Subject: [PATCH 298/359] fix: safe_pointer differences accept a pointer one
 past the end

---
 include/daw/daw_safe_pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index e15993c..a8358c5 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -56,7 +56,7 @@ namespace daw::memory {
 		[[nodiscard]] constexpr bool pointer_in_range( pointer p ) const {
 			return ( not get_base( ) and not p ) or
 			       ( std::less_equal<>{ }( get_base( ), p ) and
-			         std::less<>{ }( p, daw::data_end( m_range ) ) );
+			         std::less_equal<>{ }( p, daw::data_end( m_range ) ) );
 		}
 
 		[[nodiscard]] constexpr bool same_range( safe_pointer const &rhs ) const {
-- 
2.43.0


From 3270ebab8a8039405da03cb054ac219f6e942cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 299/359] fix: daw_safe_pointer.h includes what it uses

---
 include/daw/daw_safe_pointer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index a8358c5..d4df064 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -12,7 +12,9 @@
 
 #include "daw_data_end.h"
 
+#include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <daw/stdinc/compare_fn.h>
 #include <daw/stdinc/iterator_traits.h>
 #include <daw/stdinc/remove_cvref.h>
-- 
2.43.0


From 84f9a3b1ba31e4ce4620d80cedd3e9bad3f7214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 300/359] fix: dbg_throw_on_false can be called with only a
 condition

---
 include/daw/daw_exception.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/daw/daw_exception.h b/include/daw/daw_exception.h
index 8e027b8..6135a3d 100644
--- a/include/daw/daw_exception.h
+++ b/include/daw/daw_exception.h
@@ -187,12 +187,7 @@ namespace daw::exception {
 	template<typename ExceptionType = AssertException>
 	constexpr void dbg_throw_on_false( bool test ) {
 		if( not static_cast<bool>( test ) ) {
-#if defined( __cpp_exceptions ) or defined( __EXCEPTIONS ) or \
-  defined( _CPPUNWIND )
-			throw ExceptionType{ };
-#else
-			std::abort( );
-#endif
+			daw_throw<ExceptionType>( );
 		}
 	}
 #else
-- 
2.43.0


From 21c6d28978ba107d589eda8ebf90f025c69cf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:24 +0000
Subject: [PATCH 301/359] fix: set_bit on a UInt64 cleared its upper 32 bits

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6696740..acbb79a 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2879,8 +2879,8 @@ namespace daw {
 	template<unsigned N>
 	inline constexpr void set_bit( UInt64 &value, bool state ) {
 		static_assert( N <= 64 );
-		value =
-		  ( value & ( ~( 1U << N ) ) ) | ( static_cast<UInt64>( state ) << N );
+		value = ( value & ( ~( static_cast<UInt64>( 1U ) << N ) ) ) |
+		        ( static_cast<UInt64>( state ) << N );
 	}
 
 	template<unsigned N>
-- 
2.43.0


From ca5f57891f303c1b96c92ba2f894f78f6087917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:24 +0000
Subject: [PATCH 302/359] fix: rotating a UInt64 or UInt32 by nothing or its
 whole width shifted by the width

---
 include/daw/daw_uint_types.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index acbb79a..0d6f3bf 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) |
+		       ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) |
+		       ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) |
+		       ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) |
+		       ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1079,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) |
+		       ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) |
+		       ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) |
+		       ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) |
+		       ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
-- 
2.43.0


From 3f9dd3481aed6a8347d0b693aabff238987ddeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:53 +0000
Subject: [PATCH 303/359] fix: to_reference_vector never advanced and never
 ended

---
 include/daw/daw_reference.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_reference.h b/include/daw/daw_reference.h
index 762ec0f..93a4f91 100644
--- a/include/daw/daw_reference.h
+++ b/include/daw/daw_reference.h
@@ -85,6 +85,7 @@ namespace daw {
 		values_type result{ };
 		while( first != last ) {
 			result.push_back( daw::ref<value_type>( *first ) );
+			++first;
 		}
 		return result;
 	}
-- 
2.43.0


From 006de8a83194373b88ff371ea01703854b6afbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 304/359] fix: unique_ptr: move assignment from a holder inside
 the owned object

---
 include/daw/daw_unique_ptr.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 7b29ebb..d1f1ffe 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -152,7 +152,8 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
+				// rhs may be part of the object being replaced, keep that alive
+				auto const old = unique_ptr( std::move( *this ) );
 				m_ptr = rhs.release( );
 				if constexpr( std::is_move_assignable_v<Deleter> ) {
 					get_deleter( ) = static_cast<Deleter &&>( rhs );
@@ -167,7 +168,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
+			auto const old = unique_ptr( std::move( *this ) );
 			m_ptr = rhs.release( );
 			if constexpr( std::is_move_assignable_v<Deleter> ) {
 				get_deleter( ) = std::move( rhs.get_deleter( ) );
@@ -321,7 +322,8 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
+				// rhs may be part of the object being replaced, keep that alive
+				auto const old = unique_ptr( std::move( *this ) );
 				m_ptr = rhs.release( );
 				if constexpr( std::is_move_assignable_v<Deleter> ) {
 					get_deleter( ) = static_cast<Deleter &&>( rhs );
@@ -336,7 +338,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
+			auto const old = unique_ptr( std::move( *this ) );
 			m_ptr = rhs.release( );
 			if constexpr( std::is_move_assignable_v<Deleter> ) {
 				get_deleter( ) = std::move( rhs.get_deleter( ) );
-- 
2.43.0


From bd9c5c1b64ce840dbf0206ba84896d525224da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 305/359] fix: maybe_unique_ptr: move assignment from a holder
 inside the owned object

---
 include/daw/daw_maybe_unique_ptr.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 9184eb7..b67d4fb 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -96,7 +96,8 @@ namespace daw {
 
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
+				// rhs may be part of the object being replaced, keep that alive
+				auto const old = maybe_unique_ptr( std::move( *this ) );
 				m_ptr = std::move( rhs.m_ptr );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
@@ -110,7 +111,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
+			auto const old = maybe_unique_ptr( std::move( *this ) );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
@@ -122,7 +123,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			reset( );
+			auto const old = maybe_unique_ptr( std::move( *this ) );
 			m_ptr = std::move( rhs );
 			return *this;
 		}
-- 
2.43.0


From 3f02e2c5ac46eca08c31a4b5913cdc2d98b2d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 306/359] fix: unique_array_t: move assignment from an array
 inside an element

---
 include/daw/daw_unique_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 4be4752..17dd25c 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -66,7 +66,8 @@ namespace daw {
 			if( this == &rhs ) {
 				return *this;
 			}
-			clear( );
+			// rhs may be part of the elements being replaced, keep those alive
+			auto const old = unique_array_t( std::move( *this ) );
 			if( !rhs.m_data ) {
 				return *this;
 			}
-- 
2.43.0


From 4534049c08ff32f3fb0a35ec37ae0a5f45c7bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 307/359] fix: copiable_unique_ptr: move assignment from a
 holder inside the owned object leaked it

---
 include/daw/deprecated/daw_copiable_unique_ptr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index e23c122..2a856e6 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -48,8 +48,9 @@ namespace daw {
 
 		constexpr copiable_unique_ptr &
 		operator=( copiable_unique_ptr &&rhs ) noexcept {
-			auto tmp = m_value;
-			m_value = daw::exchange( rhs.m_value, tmp );
+			// rhs may be part of the object being replaced, it must not own it
+			auto tmp = copiable_unique_ptr( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From ebb1cc5f6e3e70f1cbb28b25da60b2d29dbdd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 308/359] fix: rc_ptr: assignment from a holder inside the
 owned object

---
 include/daw/daw_ref_counted_pointer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index c868351..668259c 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -87,7 +87,8 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
+				// rhs may be part of the object being replaced, keep that alive
+				auto const old = std::move( *this );
 				if( rhs ) {
 					m_pointer = rhs.m_pointer;
 					m_ref_count = rhs.m_ref_count;
@@ -105,7 +106,7 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
+				auto const old = std::move( *this );
 				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
 				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
 			}
@@ -259,7 +260,7 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
+				auto const old = std::move( *this );
 				m_pointer = rhs.m_pointer;
 				m_ref_count = rhs.m_ref_count;
 				if( m_pointer ) {
@@ -277,7 +278,7 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
+				auto const old = std::move( *this );
 				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
 				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
 			}
-- 
2.43.0


From 01d58dc70053f5f08b9422ddf934fdd301a71c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 309/359] fix: vector: move assignment from a vector inside an
 element

---
 include/daw/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index b61ca2f..d505a6c 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1127,7 +1127,8 @@ namespace daw {
 
 		constexpr void move_assign( vector &c, std::true_type ) //
 		  noexcept( std::is_nothrow_move_assignable_v<allocator_type> ) {
-			vdeallocate( );
+			// c may be part of an element being replaced, keep those alive
+			auto const old = std::move( *this );
 			move_assign_alloc( c ); // this can throw
 			m_begin = c.m_begin;
 			m_end = c.m_end;
-- 
2.43.0


From f26f23de80dab96caa380688bafa31903d3570f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:22 +0000
Subject: [PATCH 310/359] fix: a copied or moved Map of an owned container
 iterates the old container

---
 include/daw/pipelines/map.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 50a3ad1..436166f 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -188,30 +188,38 @@ namespace daw::pipelines {
 		using value_type = daw::iter_value_t<iterator_first_t>;
 
 		daw::remove_rvalue_ref_t<R> m_range{ };
-		iterator_first_t m_first{ };
-		iterator_last_t m_last{ };
+		DAW_NO_UNIQUE_ADDRESS Fn m_func{ };
+		DAW_NO_UNIQUE_ADDRESS Projection m_projection{ };
 
+	private:
+		// The range may be owned by this view, iterators into it cannot be kept as
+		// they would not follow a copy or move
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr std::remove_reference_t<R> &
+		range( ) const {
+			return const_cast<std::remove_reference_t<R> &>( m_range );
+		}
+
+	public:
 		explicit map_view( ) = default;
 
 		explicit constexpr map_view( Range auto &&r, Fn const &fn )
 		  requires( not Iterator<Fn> )
 		  : m_range( DAW_FWD( r ) )
-		  , m_first{ std::begin( m_range ), fn }
-		  , m_last{ std::end( m_range ), fn } {}
+		  , m_func( fn ) {}
 
 		explicit constexpr map_view( Range auto &&r, Fn const &fn,
 		                             Projection const &projection )
 		  requires( not Iterator<Fn> and not Iterator<Projection> )
 		  : m_range( DAW_FWD( r ) )
-		  , m_first{ std::begin( m_range ), fn, projection }
-		  , m_last{ std::end( m_range ), fn, projection } {}
+		  , m_func( fn )
+		  , m_projection( projection ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
-			return m_first;
+			return iterator_first_t{ std::begin( range( ) ), m_func, m_projection };
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_last_t end( ) const {
-			return m_last;
+			return iterator_last_t{ std::end( range( ) ), m_func, m_projection };
 		}
 	};
 	template<Range R, typename F>
-- 
2.43.0


From 3d81aed6eaed2bc833b916267ab1d517cfc48853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:01 +0000
Subject: [PATCH 311/359] fix: a copied or moved Split of an owned container
 iterates the old container

---
 include/daw/pipelines/split.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 7fee23b..c7c0588 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -141,8 +141,6 @@ namespace daw::pipelines {
 		DAW_NO_UNIQUE_ADDRESS range_type m_range{ };
 		DAW_NO_UNIQUE_ADDRESS Delimiter m_delimiter{ };
 		DAW_NO_UNIQUE_ADDRESS Projection m_projection = Projection{ };
-		DAW_NO_UNIQUE_ADDRESS iterator_t<range_type> m_last =
-		  advance_to_last( std::begin( m_range ), std::end( m_range ) );
 
 		static constexpr auto advance_to_last( auto f, auto l ) {
 			if constexpr( RandomRange<range_type> ) {
@@ -156,6 +154,21 @@ namespace daw::pipelines {
 			}
 		}
 
+		// The range may be owned by this view, an iterator into it cannot be kept as
+		// it would not follow a copy or move
+		[[nodiscard]] constexpr iterator make_first( ) const {
+			auto &r = const_cast<std::remove_reference_t<range_type> &>( m_range );
+			return iterator{ std::begin( r ),
+			                 advance_to_last( std::begin( r ), std::end( r ) ),
+			                 m_delimiter, m_projection };
+		}
+
+		[[nodiscard]] constexpr iterator make_last( ) const {
+			auto &r = const_cast<std::remove_reference_t<range_type> &>( m_range );
+			auto last = advance_to_last( std::begin( r ), std::end( r ) );
+			return iterator{ last, last, m_delimiter, m_projection };
+		}
+
 	public:
 		split_view( ) = default;
 
@@ -166,30 +179,27 @@ namespace daw::pipelines {
 		  , m_projection{ std::move( p ) } {}
 
 		[[nodiscard]] constexpr iterator begin( ) {
-			return iterator{ std::begin( m_range ), m_last, m_delimiter,
-			                 m_projection };
+			return make_first( );
 		}
 
 		[[nodiscard]] constexpr iterator begin( ) const {
-			return iterator{ std::begin( m_range ), m_last, m_delimiter,
-			                 m_projection };
+			return make_first( );
 		}
 
 		[[nodiscard]] constexpr iterator cbegin( ) const {
-			return iterator{ std::begin( m_range ), m_last, m_delimiter,
-			                 m_projection };
+			return make_first( );
 		}
 
 		[[nodiscard]] constexpr iterator end( ) {
-			return iterator{ m_last, m_last, m_delimiter, m_projection };
+			return make_last( );
 		}
 
 		[[nodiscard]] constexpr iterator end( ) const {
-			return iterator{ m_last, m_last, m_delimiter, m_projection };
+			return make_last( );
 		}
 
 		[[nodiscard]] constexpr iterator cend( ) const {
-			return iterator{ m_last, m_last, m_delimiter, m_projection };
+			return make_last( );
 		}
 	};
 	template<ForwardRange R, typename Delimiter>
-- 
2.43.0


From d68c245fe20b95126ac0483c4962fc8df0d0c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:01 +0000
Subject: [PATCH 312/359] fix: a copied or moved Chunk of an owned container
 read outside of it

---
 include/daw/pipelines/chunk.h | 61 +++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index b22afe7..c027e1d 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -20,7 +20,25 @@
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
-	struct chunk_view : range_base_t<chunk_view<R>> {
+	struct chunk_view;
+
+	// A view that owns its range cannot be an iterator too.  A copy has its own
+	// range and a position in that of the original
+	template<typename R>
+	struct chunk_view_position {
+		using type = chunk_view<range_t<daw::iterator_t<R>>>;
+	};
+	template<typename R>
+	struct chunk_view_position<R &> {
+		using type = chunk_view<R &>;
+	};
+	template<typename First, typename Last>
+	struct chunk_view_position<range_t<First, Last>> {
+		using type = chunk_view<range_t<First, Last>>;
+	};
+
+	template<ForwardRange R>
+	struct chunk_view : range_base_t<typename chunk_view_position<R>::type> {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::iterator_t<std::add_const_t<R>>;
 		using iterator_category = std::forward_iterator_tag;
@@ -36,6 +54,27 @@ namespace daw::pipelines::pimpl {
 		iterator m_iter{ };
 		difference_type m_chunk_size = 1;
 
+		using position_t = typename chunk_view_position<R>::type;
+
+		[[nodiscard]] constexpr position_t first_position( ) const {
+			if constexpr( std::same_as<position_t, chunk_view> ) {
+				return *this;
+			} else {
+				auto &r = const_cast<std::remove_reference_t<m_range_t> &>( m_range );
+				return position_t{ range_t<iterator>{ std::begin( r ), std::end( r ) },
+				                   static_cast<std::size_t>( m_chunk_size ) };
+			}
+		}
+
+		[[nodiscard]] constexpr position_t last_position( ) const {
+			auto result = first_position( );
+			result.m_iter = result.ra_end( );
+			return result;
+		}
+
+		template<ForwardRange>
+		friend struct chunk_view;
+
 		[[nodiscard]] constexpr auto ra_end( ) {
 			return std::end( m_range );
 		}
@@ -75,24 +114,20 @@ namespace daw::pipelines::pimpl {
 			return m_iter;
 		}
 
-		constexpr chunk_view begin( ) {
-			return *this;
+		constexpr position_t begin( ) {
+			return first_position( );
 		}
 
-		constexpr chunk_view begin( ) const {
-			return *this;
+		constexpr position_t begin( ) const {
+			return first_position( );
 		}
 
-		constexpr chunk_view end( ) {
-			auto result = *this;
-			result.m_iter = ra_end( );
-			return result;
+		constexpr position_t end( ) {
+			return last_position( );
 		}
 
-		constexpr chunk_view end( ) const {
-			auto result = *this;
-			result.m_iter = ra_end( );
-			return result;
+		constexpr position_t end( ) const {
+			return last_position( );
 		}
 
 		constexpr chunk_view &operator++( ) {
-- 
2.43.0


From 26e4b0f46180f8a1d5fab24a0e8fb4354708cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:01 +0000
Subject: [PATCH 313/359] fix: a copied or moved Slide of an owned container
 read outside of it

---
 include/daw/pipelines/slide.h | 59 ++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index 2dc9a24..4ff31e6 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -18,6 +18,24 @@
 #include <cstddef>
 
 namespace daw::pipelines::pimpl {
+	template<ForwardRange R>
+	struct slide_view;
+
+	// A view that owns its range cannot be an iterator too.  A copy has its own
+	// range and a position in that of the original
+	template<typename R>
+	struct slide_view_position {
+		using type = slide_view<range_t<daw::iterator_t<R>>>;
+	};
+	template<typename R>
+	struct slide_view_position<R &> {
+		using type = slide_view<R &>;
+	};
+	template<typename First, typename Last>
+	struct slide_view_position<range_t<First, Last>> {
+		using type = slide_view<range_t<First, Last>>;
+	};
+
 	template<ForwardRange R>
 	struct slide_view {
 		using iterator = daw::iterator_t<R>;
@@ -35,6 +53,27 @@ namespace daw::pipelines::pimpl {
 		iterator m_iter{ };
 		difference_type m_slide_size = 1;
 
+		using position_t = typename slide_view_position<R>::type;
+
+		[[nodiscard]] constexpr position_t first_position( ) const {
+			if constexpr( std::same_as<position_t, slide_view> ) {
+				return *this;
+			} else {
+				auto &r = const_cast<std::remove_reference_t<m_range_t> &>( m_range );
+				return position_t{ range_t<iterator>{ std::begin( r ), std::end( r ) },
+				                   static_cast<std::size_t>( m_slide_size ) };
+			}
+		}
+
+		[[nodiscard]] constexpr position_t last_position( ) const {
+			auto result = first_position( );
+			result.m_iter = result.ra_end( );
+			return result;
+		}
+
+		template<ForwardRange>
+		friend struct slide_view;
+
 		[[nodiscard]] constexpr auto ra_end( ) {
 			return std::end( m_range );
 		}
@@ -74,24 +113,20 @@ namespace daw::pipelines::pimpl {
 			return m_iter;
 		}
 
-		constexpr slide_view begin( ) {
-			return *this;
+		constexpr position_t begin( ) {
+			return first_position( );
 		}
 
-		constexpr slide_view begin( ) const {
-			return *this;
+		constexpr position_t begin( ) const {
+			return first_position( );
 		}
 
-		constexpr slide_view end( ) {
-			auto result = *this;
-			result.m_iter = ra_end( );
-			return result;
+		constexpr position_t end( ) {
+			return last_position( );
 		}
 
-		constexpr slide_view end( ) const {
-			auto result = *this;
-			result.m_iter = ra_end( );
-			return result;
+		constexpr position_t end( ) const {
+			return last_position( );
 		}
 
 		constexpr slide_view &operator++( ) {
-- 
2.43.0


From 0616790e73526eef8c7847981002c89d736e157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:11 +0000
Subject: [PATCH 314/359] fix: pipeline: a stage over the owned result of an
 earlier one read it after it was destroyed

---
 include/daw/pipelines/pipeline.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/pipeline.h b/include/daw/pipelines/pipeline.h
index 8d44199..ca59f1d 100644
--- a/include/daw/pipelines/pipeline.h
+++ b/include/daw/pipelines/pipeline.h
@@ -34,16 +34,19 @@ namespace daw::pipelines::pimpl {
 		}
 	}
 
+	// Call function Idx and pass the result to the ones that follow.  A stage may
+	// refer to the result of an earlier one, so they all are kept until the last
+	// has returned
 	template<std::size_t Idx, typename R, typename... Ranges, typename... Ts>
 	[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr auto
 	pipeline( std::tuple<Ts...> const &functions, R &&r, Ranges &&...ranges ) {
 		using std::get;
-		if constexpr( Idx > 0 ) {
+		if constexpr( Idx + 1 < sizeof...( Ts ) ) {
 			auto &&param =
-			  pipeline<Idx - 1>( functions, DAW_FWD( r ), DAW_FWD( ranges )... );
-			return get<Idx>( functions )( DAW_FWD( param ) );
+			  get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return pipeline<Idx + 1>( functions, DAW_FWD( param ) );
 		} else {
-			return get<0>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
 		}
 	}
 
@@ -103,7 +106,7 @@ namespace daw::pipelines::pimpl {
 namespace daw::pipelines {
 	template<Range R, typename... Fns>
 	DAW_ATTRIB_FLATTEN constexpr auto pipeline( R &&r, Fns &&...fns ) {
-		return pimpl::pipeline<sizeof...( Fns ) - 1>(
+		return pimpl::pipeline<0>(
 		  pimpl::make_tpfns<true>( DAW_FWD( fns )... ),
 		  pimpl::fix_range( DAW_FWD( r ) ) );
 	}
@@ -117,9 +120,8 @@ namespace daw::pipelines {
 		    Range auto &&r, Range auto &&...rs ) {
 			  // We are going to forward refs to the current tuple to ensure it is
 			  // only stored here if there are large callables passed
-			  using tp_size = daw::constant<std::tuple_size_v<DAW_TYPEOF( tpfns )>>;
 			  return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
-				  return pimpl::pipeline<tp_size::value - 1>(
+				  return pimpl::pipeline<0>(
 				    tpfns,
 				    // std::forward_as_tuple( std::get<Is>( tpfns )... ),
 				    pimpl::fix_range( DAW_FWD( r ) ),
-- 
2.43.0


From 385ea513f149aaad38d8e70e50b12e9a678a8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:03 +0000
Subject: [PATCH 315/359] fix: safe_next/safe_prev/safe_advance/begin_at: a
 distance above PTRDIFF_MAX moved nowhere, PTRDIFF_MIN overflowed

---
 include/daw/daw_algorithm.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 95b8ca9..d7251b4 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -36,6 +36,7 @@
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/range_access.h>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <type_traits>
 #include <vector>
@@ -85,6 +86,18 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		// A distance larger than any range stays that large
+		template<typename Distance>
+		constexpr ptrdiff_t clamp_distance( Distance dist ) noexcept {
+			if constexpr( std::is_unsigned_v<Distance> ) {
+				constexpr auto max_dist = ( std::numeric_limits<ptrdiff_t>::max )( );
+				if( static_cast<size_t>( dist ) > static_cast<size_t>( max_dist ) ) {
+					return max_dist;
+				}
+			}
+			return static_cast<ptrdiff_t>( dist );
+		}
+
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -121,9 +134,9 @@ namespace daw {
 					it = first;
 					return;
 				}
-				dist = -dist;
-				it -= (daw::min)( static_cast<ptrdiff_t>( dist_to_first ),
-				                  static_cast<ptrdiff_t>( dist ) );
+				it -= static_cast<ptrdiff_t>( dist ) < -dist_to_first
+				        ? static_cast<ptrdiff_t>( dist_to_first )
+				        : -static_cast<ptrdiff_t>( dist );
 				return;
 			}
 			auto const dist_to_last = last - it;
@@ -152,7 +165,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamp_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -173,7 +186,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::clamp_distance( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -191,7 +204,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::clamp_distance( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -209,7 +222,7 @@ namespace daw {
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::clamp_distance( n );
 		algorithm_details::safe_advance_impl( first, it, it, -d );
 		return it;
 	}
@@ -228,7 +241,7 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 
@@ -247,7 +260,7 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From 71e5f14016d8edf017f84305918a3fcaa99da10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 316/359] fix: Take of more than PTRDIFF_MAX elements produced
 a range that never ends

---
 include/daw/pipelines/take.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index e4379fa..0018713 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -33,8 +33,10 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
+				auto const take_size =
+				  how_many < static_cast<std::size_t>( range_size )
+				    ? static_cast<std::ptrdiff_t>( how_many )
+				    : static_cast<std::ptrdiff_t>( range_size );
 				return range_t{
 				  sized_iterator<iter_t>{ first,
 				                          static_cast<std::size_t>( take_size ) },
-- 
2.43.0


From f2d7817c2af7ce5895d644fbc3e20d197e922b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 317/359] fix: Skip of more than PTRDIFF_MAX elements started
 before the source

---
 include/daw/pipelines/skip.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..2619f4b 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -28,8 +28,9 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
+				auto const skip = how_many < static_cast<std::size_t>( range_size )
+				                    ? static_cast<std::ptrdiff_t>( how_many )
+				                    : static_cast<std::ptrdiff_t>( range_size );
 				first = std::next( first, skip );
 			} else {
 				// Input
-- 
2.43.0


From a7f260562f75518a32c9c15d2092c5bdf317f249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 318/359] fix: Chunk of more than PTRDIFF_MAX elements never
 ended or lost elements

---
 include/daw/pipelines/chunk.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index c027e1d..3bbd634 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -16,7 +16,9 @@
 #include "daw/daw_remove_cvref.h"
 #include "daw/pipelines/range.h"
 
+#include <algorithm>
 #include <cstddef>
+#include <limits>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
@@ -104,7 +106,9 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
+		  , m_chunk_size{ static_cast<difference_type>( (std::min)(
+		      chunk_size, static_cast<std::size_t>(
+		                    ( std::numeric_limits<difference_type>::max )( ) ) ) ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 9a9b02aa3997a0fc8d7323ea8ffb000935a8752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 319/359] fix: Slide of more than PTRDIFF_MAX elements never
 ended or lost elements

---
 include/daw/pipelines/slide.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index 4ff31e6..d170f39 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -15,7 +15,9 @@
 #include "daw/daw_remove_cvref.h"
 #include "range.h"
 
+#include <algorithm>
 #include <cstddef>
+#include <limits>
 
 namespace daw::pipelines::pimpl {
 	template<ForwardRange R>
@@ -103,7 +105,9 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( (std::min)(
+		      slide_size, static_cast<std::size_t>(
+		                    ( std::numeric_limits<difference_type>::max )( ) ) ) ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 901bceaeb8e8c349157a8109056f5373d8e23c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 320/359] fix: safe_pointer refuses to dereference one past the
 end

---
 include/daw/daw_safe_pointer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index d4df064..4480f40 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -170,6 +170,8 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
+			DAW_SAFE_POINTER_ENSURE( not m_range.data( ) or
+			                         pointer_index( ) < get_base_size( ) );
 			return *m_pointer;
 		}
 
-- 
2.43.0


From 2418ef1ca1e6434a6ed3c4f0b66a7f696720e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 321/359] fix: zip iterators of ranges of different lengths
 were less than the end they equal

---
 include/daw/pipelines/zip.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index 176733a..7a2adf4 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -215,24 +215,24 @@ namespace daw::pipelines {
 			}( zip_indices( ) );
 		}
 
-		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return m_iters < rhs.m_iters;
+			return *this != rhs and m_iters < rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return m_iters <= rhs.m_iters;
+			return not( *this > rhs );
 		}
 
-		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return m_iters > rhs.m_iters;
+			return rhs < *this;
 		}
 
-		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return m_iters >= rhs.m_iters;
+			return not( *this < rhs );
 		}
 	};
 	template<Iterator... Iterators>
-- 
2.43.0


From eb999e7e461a95d507a2a36e97616f69bd1316da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 322/359] fix: clear of the legacy string view did not compile

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 86a757a..a29b8c6 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -405,7 +405,7 @@ namespace daw {
 
 			constexpr void clear( ) {
 				m_first = nullptr;
-				m_last = make_last<BoundsType>( nullptr, 0 );
+				m_last = make_last<BoundsType>( nullptr, size_type{ 0 } );
 			}
 
 			[[nodiscard]] constexpr CharT pop_front( ) {
-- 
2.43.0


From 2cf2d9e8db72b733f91df551f7f03f03ca8648aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 323/359] fix: legacy string view resize refused its own size
 and needs pointer bounds

---
 include/daw/deprecated/daw_string_view1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index a29b8c6..c555fd2 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -559,8 +559,8 @@ namespace daw {
 			}
 
 			constexpr void resize( std::size_t const n ) {
-				daw::exception::precondition_check<std::out_of_range>( n < size( ) );
-				m_last = std::next( m_first, static_cast<ptrdiff_t>( n ) );
+				daw::exception::precondition_check<std::out_of_range>( n <= size( ) );
+				m_last = make_last<BoundsType>( m_first, n );
 			}
 
 			constexpr void swap( basic_string_view &v ) {
-- 
2.43.0


From d7555b809fc49264f9545a83386b5f6f41f32a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 324/359] fix: legacy find_last_of of a character searched
 after pos, missed the first place and ran on empty views

---
 include/daw/deprecated/daw_string_view1.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index c555fd2..579106d 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -927,18 +927,9 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_last_of( CharT const c, size_type pos = npos ) const {
-				if( pos >= size( ) ) {
-					pos = 0;
-				}
-				auto first = std::prev( m_last );
-				auto const last = std::next( m_first, pos );
-				while( first != last ) {
-					if( *first == c ) {
-						return static_cast<size_type>( std::distance( m_first, first ) );
-					}
-					--first;
-				}
-				return npos;
+				return find_last_of(
+				  basic_string_view<CharT, BoundsType>( std::addressof( c ), 1U ),
+				  pos );
 			}
 
 			template<size_type N>
-- 
2.43.0


From dacb7ca11de61fab68bc298fb21da91f80310083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 325/359] fix: legacy string view find read past the view when
 pos was past the end

---
 include/daw/deprecated/daw_string_view1.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index 579106d..c8db786 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -679,7 +679,7 @@ namespace daw {
 			find( basic_string_view<CharT, Bounds, Ex> const v,
 			      size_type const pos = 0 ) const {
 
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From bb47278a086f21db4bfa5ea5924a7ed28c093aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 326/359] fix: legacy search missed matches at the end and
 search_last found the first match, or pos when there was none

---
 include/daw/deprecated/daw_string_view1.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index c8db786..cff043e 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -779,7 +779,7 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search( basic_string_view<CharT, Bounds, Ex> const v,
 			        size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter =
@@ -799,17 +799,11 @@ namespace daw {
 			[[nodiscard]] constexpr size_type
 			search_last( basic_string_view<CharT, Bounds, Ex> const v,
 			             size_type const pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 79851e1dfe59079f73d228ae373c02d5cb41211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 327/359] fix: legacy make_string_view and split took the
 terminator of a literal as a character

---
 include/daw/deprecated/daw_string_view1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index cff043e..a2c5662 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -1166,7 +1166,7 @@ namespace daw {
 		         std::size_t N>
 		[[nodiscard]] constexpr daw::sv1::basic_string_view<CharT>
 		make_string_view( CharT const ( &str )[N] ) {
-			return daw::sv1::basic_string_view<CharT, Bounds, N - 1>( str, N );
+			return daw::sv1::basic_string_view<CharT, Bounds, N - 1>( str, N - 1 );
 		}
 
 		template<typename CharT, typename Bounds>
@@ -1624,7 +1624,7 @@ namespace daw {
 		template<typename Bounds = default_string_view_bounds_type, typename CharT,
 		         std::size_t N, typename Delemiter>
 		[[nodiscard]] auto split( CharT const ( &str )[N], Delemiter d ) {
-			return split( basic_string_view<CharT, Bounds>( str, N ), d );
+			return split( basic_string_view<CharT, Bounds>( str, N - 1 ), d );
 		}
 
 		template<typename CharT, typename Bounds, std::ptrdiff_t Ex,
-- 
2.43.0


From af1120b7a011b953f31b145a2af89d9fe5e20bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:53 +0000
Subject: [PATCH 328/359] fix: std::hash of the legacy string view did not
 compile

---
 include/daw/deprecated/daw_string_view1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_string_view1.h b/include/daw/deprecated/daw_string_view1.h
index a2c5662..9296415 100644
--- a/include/daw/deprecated/daw_string_view1.h
+++ b/include/daw/deprecated/daw_string_view1.h
@@ -1699,8 +1699,8 @@ namespace std {
 	template<typename CharT, typename Bounds, std::ptrdiff_t Ex>
 	struct hash<daw::sv1::basic_string_view<CharT, Bounds, Ex>> {
 		[[nodiscard]] constexpr size_t
-		operator( )( daw::sv1::basic_string_view<CharT, Bounds, Ex> s ) {
-			return daw::fnv1a_hash( s );
+		operator( )( daw::sv1::basic_string_view<CharT, Bounds, Ex> s ) const {
+			return daw::sv1::fnv1a_hash( s );
 		}
 	};
 } // namespace std
-- 
2.43.0


From fe419feecac2cd3daee38b8dcb78a22644d9e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 329/359] fix: element access of a range collection did not
 compile

---
 include/daw/deprecated/daw_range_collection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_collection.h b/include/daw/deprecated/daw_range_collection.h
index 7a3de51..e4deabc 100644
--- a/include/daw/deprecated/daw_range_collection.h
+++ b/include/daw/deprecated/daw_range_collection.h
@@ -114,11 +114,11 @@ namespace daw {
 			}
 
 			reference operator[]( size_t pos ) {
-				return m_values[pos].get( );
+				return m_values[pos];
 			}
 
 			const_reference operator[]( size_t pos ) const {
-				return m_values[pos].get( );
+				return m_values[pos];
 			}
 
 			bool operator==( CollectionRange const &other ) const {
-- 
2.43.0


From 1083eab6585be411c2ebffcd8e0639dc70e17cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 330/359] fix: find and find_if of a range collection did not
 compile

---
 include/daw/deprecated/daw_range_collection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_collection.h b/include/daw/deprecated/daw_range_collection.h
index e4deabc..c25dc82 100644
--- a/include/daw/deprecated/daw_range_collection.h
+++ b/include/daw/deprecated/daw_range_collection.h
@@ -135,12 +135,12 @@ namespace daw {
 			}
 
 			template<typename Value>
-			iterator find( Value const &value ) const {
+			const_iterator find( Value const &value ) const {
 				return std::find( begin( ), end( ), value );
 			}
 
 			template<typename UnaryPredicate>
-			iterator find_if( UnaryPredicate predicate ) const {
+			const_iterator find_if( UnaryPredicate predicate ) const {
 				return std::find_if( begin( ), end( ), predicate );
 			}
 
-- 
2.43.0


From 5fb6ce6f6a898f255ed4ce9e6b0fa9bb17c0848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 331/359] fix: transform of a range collection did not compile

---
 include/daw/deprecated/daw_range_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_range_collection.h b/include/daw/deprecated/daw_range_collection.h
index c25dc82..1c88954 100644
--- a/include/daw/deprecated/daw_range_collection.h
+++ b/include/daw/deprecated/daw_range_collection.h
@@ -253,7 +253,7 @@ namespace daw {
 			}
 
 			template<typename UnaryOperator>
-			CollectionRange &transform( UnaryOperator oper ) const {
+			auto transform( UnaryOperator oper ) const {
 				using v_t = daw::traits::root_type_t<decltype( oper( front( ) ) )>;
 				auto result = CollectionRange<v_t>( );
 				std::transform( std::begin( m_values ),
-- 
2.43.0


From 67fa52c23c8b1791d8f6decd1479cd70b11def28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 332/359] fix: as, as_vector and for_each of a constant range
 collection did not compile

---
 include/daw/deprecated/daw_range_collection.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_range_collection.h b/include/daw/deprecated/daw_range_collection.h
index 1c88954..9ddcd2c 100644
--- a/include/daw/deprecated/daw_range_collection.h
+++ b/include/daw/deprecated/daw_range_collection.h
@@ -315,10 +315,7 @@ namespace daw {
 			template<typename Container>
 			decltype( auto ) as( ) const {
 				Container result;
-				std::transform(
-				  begin( ), end( ), std::back_inserter( result ), []( auto const &rv ) {
-					  return rv.get( );
-				  } );
+				std::copy( begin( ), end( ), std::back_inserter( result ) );
 				return result;
 			}
 
@@ -327,7 +324,7 @@ namespace daw {
 			}
 
 			template<typename Function>
-			CollectionRange &for_each( Function function ) const {
+			CollectionRange const &for_each( Function function ) const {
 				for( auto const &v : m_values ) {
 					function( v );
 				}
-- 
2.43.0


From a95ab63955fc2560cf2f752a38b4944a47fde0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 333/359] fix: sorting a reference range with an order did not
 compile, and the constant stable_sort was not stable

---
 include/daw/deprecated/daw_range_reference.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index cf73936..adad43d 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -146,9 +146,10 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			ReferenceRange &sort( UnaryPredicate predicate ) {
-				std::sort( begin( ), end( ), [&predicate]( auto const &v ) {
-					return predicate( v.get( ) );
-				} );
+				std::sort(
+				  begin( ), end( ), [&predicate]( auto const &a, auto const &b ) {
+					  return predicate( a.get( ), b.get( ) );
+				  } );
 				return *this;
 			}
 
@@ -168,15 +169,16 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			ReferenceRange &stable_sort( UnaryPredicate predicate ) {
-				std::stable_sort( begin( ), end( ), [&predicate]( auto const &v ) {
-					return predicate( v.get( ) );
-				} );
+				std::stable_sort(
+				  begin( ), end( ), [&predicate]( auto const &a, auto const &b ) {
+					  return predicate( a.get( ), b.get( ) );
+				  } );
 				return *this;
 			}
 
 			template<typename UnaryPredicate>
 			ReferenceRange stable_sort( UnaryPredicate predicate ) const {
-				return copy( ).sort( predicate );
+				return copy( ).stable_sort( predicate );
 			}
 
 			ReferenceRange &unique( ) {
-- 
2.43.0


From 28263bb37e76d769cd33b74944554ac137b45279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 334/359] fix: unique of a reference range did not compile

---
 include/daw/deprecated/daw_range_reference.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index adad43d..afde4bd 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -182,7 +182,7 @@ namespace daw {
 			}
 
 			ReferenceRange &unique( ) {
-				erase( std::unique( begin( ), end( ) ), end( ) );
+				m_values.erase( std::unique( begin( ), end( ) ), end( ) );
 				return *this;
 			}
 
@@ -192,12 +192,13 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			ReferenceRange &unique( UnaryPredicate predicate ) {
-				erase( std::unique( begin( ),
-				                    end( ),
-				                    [&predicate]( auto const &v ) {
-					                    return predicate( v.get( ) );
-				                    } ),
-				       end( ) );
+				m_values.erase(
+				  std::unique( begin( ),
+				               end( ),
+				               [&predicate]( auto const &a, auto const &b ) {
+					               return predicate( a.get( ), b.get( ) );
+				               } ),
+				  end( ) );
 				return *this;
 			}
 
-- 
2.43.0


From c69199101314dd6091d8abc02b450fc5940f685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 335/359] fix: accumulate of a reference range did not compile

---
 include/daw/deprecated/daw_range_reference.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index afde4bd..b204f43 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -17,6 +17,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <functional>
 #include <iterator>
 #include <numeric>
 #include <random>
@@ -261,7 +262,7 @@ namespace daw {
 
 			template<typename T>
 			auto accumulate( T &&init ) const {
-				return std::accumulate( begin( ), end( ), DAW_FWD( init ) );
+				return accumulate( DAW_FWD( init ), std::plus<>{ } );
 			}
 
 			template<typename T, typename BinaryOperator>
@@ -270,7 +271,7 @@ namespace daw {
 				                        end( ),
 				                        DAW_FWD( init ),
 				                        [&oper]( auto const &a, auto const &b ) {
-					                        return oper( a.get( ), b.get( ) );
+					                        return oper( a, b.get( ) );
 				                        } );
 			}
 
-- 
2.43.0


From 5a33979f007647e1d501c6bf5a7a9cd711f4aea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 336/359] fix: find, find_if and contains of a reference range
 did not compile

---
 include/daw/deprecated/daw_range_reference.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index b204f43..dbd9cd2 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -124,12 +124,16 @@ namespace daw {
 
 			template<typename Value>
 			auto find( Value const &value ) const {
-				return std::find( begin( ), end( ), value );
+				return find_if( [&value]( auto const &v ) {
+					return v == value;
+				} );
 			}
 
 			template<typename UnaryPredicate>
 			auto find_if( UnaryPredicate predicate ) const {
-				return std::find_if( begin( ), end( ), predicate );
+				return std::find_if( begin( ), end( ), [&predicate]( auto const &v ) {
+					return predicate( v.get( ) );
+				} );
 			}
 
 			ReferenceRange copy( ) const {
@@ -290,7 +294,7 @@ namespace daw {
 
 			template<typename Value>
 			bool contains( Value const &value ) const {
-				return std::find( begin( ), end( ), value ) != end( );
+				return find( value ) != end( );
 			}
 
 			template<typename Value, typename UnaryPredicate>
@@ -298,7 +302,7 @@ namespace daw {
 				auto pred2 = [&value, &predicate]( Value const &val ) {
 					return predicate( value, val );
 				};
-				return std::find_if( begin( ), end( ), pred2 ) != end( );
+				return find_if( pred2 ) != end( );
 			}
 
 			template<typename UnaryPredicate>
-- 
2.43.0


From e7ddf08ca8b4b727a82801b5994c7e14cf52b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 337/359] fix: transform of a reference range did not compile

---
 include/daw/deprecated/daw_range_reference.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index dbd9cd2..365449a 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -281,8 +281,8 @@ namespace daw {
 
 			template<typename UnaryOperator>
 			auto transform( UnaryOperator oper ) const {
-				using v_t = decltype( oper( *begin( ) ) );
-				auto result = daw::range::make_range_collection<v_t>( );
+				using v_t = daw::traits::root_type_t<decltype( oper( front( ).get( ) ) )>;
+				auto result = CollectionRange<v_t>( );
 				std::transform( begin( ),
 				                end( ),
 				                std::back_inserter( result ),
-- 
2.43.0


From 2ae0583862ea5cd4d0f24e0248eefc61dad168ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 338/359] fix: partition_it of a reference range did not
 compile

---
 include/daw/deprecated/daw_range_reference.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index 365449a..4e49516 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -227,7 +227,10 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			auto partition_it( UnaryPredicate predicate ) {
-				auto mid = std::partition( begin( ), end( ), predicate );
+				auto mid =
+				  std::partition( begin( ), end( ), [&predicate]( auto const &v ) {
+					  return predicate( v.get( ) );
+				  } );
 				return std::make_pair( mid, *this );
 			}
 
-- 
2.43.0


From b2661c60491932c3257ddb936da9eab98a940948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 339/359] fix: erase_where_equal_to of a range did not compile

---
 include/daw/deprecated/daw_range_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_range_type.h b/include/daw/deprecated/daw_range_type.h
index 900b54c..777a7f4 100644
--- a/include/daw/deprecated/daw_range_type.h
+++ b/include/daw/deprecated/daw_range_type.h
@@ -215,7 +215,7 @@ namespace daw {
 
 			template<typename Value>
 			auto erase_where_equal_to( Value const &value ) {
-				return make_range_reference( *this ).erase_equal_to( value );
+				return make_range_reference( *this ).erase_where_equal_to( value );
 			}
 
 			template<typename UnaryPredicate>
-- 
2.43.0


From 42c7e9555967d09182f29449751b760111bacf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:32 +0000
Subject: [PATCH 340/359] fix: shrink of a range left one element more than
 asked for

---
 include/daw/deprecated/daw_range_type.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_type.h b/include/daw/deprecated/daw_range_type.h
index 777a7f4..3036435 100644
--- a/include/daw/deprecated/daw_range_type.h
+++ b/include/daw/deprecated/daw_range_type.h
@@ -297,12 +297,12 @@ namespace daw {
 
 			auto shrink( size_t new_size ) {
 				using daw::next;
-				return Range( m_begin, next( m_begin, new_size + 1 ) );
+				return Range( m_begin, next( m_begin, new_size ) );
 			}
 
 			auto shrink( size_t new_size ) const {
 				using daw::next;
-				return Range( m_begin, next( m_begin, new_size + 1 ) );
+				return Range( m_begin, next( m_begin, new_size ) );
 			}
 
 			std::vector<value_type> as_vector( ) const {
-- 
2.43.0


From 48ff7c3d40102e1ce48233e829fd4b2050c454af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:50 +0000
Subject: [PATCH 341/359] fix: partition_it of a constant reference range gave
 an iterator into a range that was gone, and the stable one was not stable

---
 include/daw/deprecated/daw_range_reference.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index 4e49516..062259a 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -236,7 +236,9 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			auto partition_it( UnaryPredicate predicate ) const {
-				return copy( ).partition_it( predicate );
+				auto result = copy( );
+				auto mid = result.partition_it( predicate ).first;
+				return std::make_pair( mid, std::move( result ) );
 			}
 
 			template<typename UnaryPredicate>
@@ -264,7 +266,9 @@ namespace daw {
 
 			template<typename UnaryPredicate>
 			auto stable_partition_it( UnaryPredicate predicate ) const {
-				return copy( ).partition_it( predicate );
+				auto result = copy( );
+				auto mid = result.stable_partition_it( predicate ).first;
+				return std::make_pair( mid, std::move( result ) );
 			}
 
 			template<typename T>
-- 
2.43.0


From d37b8d059c5180904429624fabff085211dc99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:50 +0000
Subject: [PATCH 342/359] fix: range operators took neither named arguments nor
 two of them

---
 include/daw/deprecated/daw_range_operators.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_range_operators.h b/include/daw/deprecated/daw_range_operators.h
index cbe65b1..2bf377a 100644
--- a/include/daw/deprecated/daw_range_operators.h
+++ b/include/daw/deprecated/daw_range_operators.h
@@ -122,10 +122,10 @@ namespace daw {
                                                                                \
 				template<typename... Args>                                             \
 				auto clause_name( Args &&...clause_name##_args ) {                     \
-					std::tuple<Args...> param =                                          \
-					  std::make_tuple( std::forward<Args...>( clause_name##_args )... ); \
-					return daw::range::operators::details::clause_name##_t<Args...>(     \
-					  std::move( param ) );                                              \
+					return daw::range::operators::details::clause_name##_t<              \
+					  std::decay_t<Args>...>(                                            \
+					  std::tuple<std::decay_t<Args>...>(                                 \
+					    DAW_FWD( clause_name##_args )... ) );                            \
 				}                                                                      \
 			}                                                                        \
 		}                                                                          \
-- 
2.43.0


From 15cf2f65db9a12fe7bf5ee66679953ef0ce8c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:40 +0000
Subject: [PATCH 343/359] fix: make_range_collection was declared twice and
 every call was ambiguous

---
 include/daw/deprecated/daw_range_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_range_common.h b/include/daw/deprecated/daw_range_common.h
index 4a094e3..db9c7f4 100644
--- a/include/daw/deprecated/daw_range_common.h
+++ b/include/daw/deprecated/daw_range_common.h
@@ -41,6 +41,6 @@ namespace daw {
 		template<typename Arg, typename... Args>
 		auto make_range_reference( Arg &&arg, Args &&...args );
 		template<typename Arg, typename... Args>
-		auto make_range_collection( Arg &&arg, Args &&...args );
+		decltype( auto ) make_range_collection( Arg &&arg, Args &&...args );
 	} // namespace range
 } // namespace daw
-- 
2.43.0


From 0c5785f2068e4fbb3916ca9002669e63074a2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:40 +0000
Subject: [PATCH 344/359] fix: transform of a reference range named a type that
 was not declared yet

---
 include/daw/deprecated/daw_range_reference.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/deprecated/daw_range_reference.h b/include/daw/deprecated/daw_range_reference.h
index 062259a..b71b9a2 100644
--- a/include/daw/deprecated/daw_range_reference.h
+++ b/include/daw/deprecated/daw_range_reference.h
@@ -26,6 +26,8 @@
 
 namespace daw {
 	namespace range {
+		template<typename T>
+		struct CollectionRange;
 
 		template<typename Iterator>
 		class ReferenceRange {
-- 
2.43.0


From 4feff3a392797b70e5c67ab098c837b1798fbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:44 +0000
Subject: [PATCH 345/359] fix: chained range operators gave references into
 collections that were gone

---
 include/daw/deprecated/daw_range_operators.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/daw/deprecated/daw_range_operators.h b/include/daw/deprecated/daw_range_operators.h
index 2bf377a..81d4d57 100644
--- a/include/daw/deprecated/daw_range_operators.h
+++ b/include/daw/deprecated/daw_range_operators.h
@@ -87,6 +87,18 @@ namespace daw {
 							return container.clause_name( DAW_FWD( clause_args )... );       \
 						}                                                                  \
                                                                                \
+						template<                                                          \
+						  typename Container,                                              \
+						  typename... ClauseArgs,                                          \
+						  typename std::enable_if_t<daw::all_true_v<                       \
+						    !std::is_reference_v<Container>,                               \
+						    !std::is_const_v<Container>,                                   \
+						    daw::range::is_range_collection_v<Container>>> * = nullptr>    \
+						static auto clause_name##_helper( Container &&container,           \
+						                                  ClauseArgs &&...clause_args ) {  \
+							return container.clause_name( DAW_FWD( clause_args )... );       \
+						}                                                                  \
+                                                                               \
 						template<typename Container>                                       \
 						auto delayed_dispatch( Container &&container ) const {             \
 							return call_##clause_name(                                       \
-- 
2.43.0


From 6b134dc86a09328bf7583b8a734aacbe3d499da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:09 +0000
Subject: [PATCH 346/359] fix: constant forms of a range collection gave
 references to ranges that were gone

---
 include/daw/deprecated/daw_range_collection.h | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/daw/deprecated/daw_range_collection.h b/include/daw/deprecated/daw_range_collection.h
index 9ddcd2c..094fb2b 100644
--- a/include/daw/deprecated/daw_range_collection.h
+++ b/include/daw/deprecated/daw_range_collection.h
@@ -167,7 +167,7 @@ namespace daw {
 				return std::find_if( begin( ), end( ), pred2 ) != end( );
 			}
 
-			decltype( auto ) sort( ) const {
+			auto sort( ) const {
 				return make_range_reference( *this ).sort( );
 			}
 
@@ -187,7 +187,7 @@ namespace daw {
 				return *this;
 			}
 
-			decltype( auto ) stable_sort( ) const {
+			auto stable_sort( ) const {
 				return make_range_reference( *this ).stable_sort( );
 			}
 
@@ -197,7 +197,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) stable_sort( UnaryPredicate predicate ) const {
+			auto stable_sort( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).stable_sort( predicate );
 			}
 
@@ -207,7 +207,7 @@ namespace daw {
 				return *this;
 			}
 
-			decltype( auto ) unique( ) const {
+			auto unique( ) const {
 				return make_range_reference( *this ).unique( );
 			}
 
@@ -218,7 +218,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) unique( UnaryPredicate predicate ) const {
+			auto unique( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).unique( predicate );
 			}
 
@@ -231,7 +231,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) partition( UnaryPredicate predicate ) const {
+			auto partition( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).partition( predicate );
 			}
 
@@ -242,7 +242,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) stable_partition( UnaryPredicate predicate ) const {
+			auto stable_partition( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).stable_partition( predicate );
 			}
 
@@ -272,7 +272,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) erase( UnaryPredicate predicate ) const {
+			auto erase( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).erase( predicate );
 			}
 
@@ -284,7 +284,7 @@ namespace daw {
 			}
 
 			template<typename Value>
-			decltype( auto ) erase_where_equal_to( Value const &value ) const {
+			auto erase_where_equal_to( Value const &value ) const {
 				return make_range_reference( *this ).erase_where_equal_to( value );
 			}
 
@@ -296,7 +296,7 @@ namespace daw {
 			}
 
 			template<typename UnaryPredicate>
-			decltype( auto ) where( UnaryPredicate predicate ) const {
+			auto where( UnaryPredicate predicate ) const {
 				return make_range_reference( *this ).where( predicate );
 			}
 
@@ -308,7 +308,7 @@ namespace daw {
 			}
 
 			template<typename Value>
-			decltype( auto ) where_equal_to( Value const &value ) const {
+			auto where_equal_to( Value const &value ) const {
 				return make_range_reference( *this ).where_equal_to( value );
 			}
 
@@ -346,7 +346,7 @@ namespace daw {
 			}
 
 			template<typename UniformRandomNumberGenerator>
-			decltype( auto ) shuffle( UniformRandomNumberGenerator &&urng ) const {
+			auto shuffle( UniformRandomNumberGenerator &&urng ) const {
 				return make_range_reference( *this ).shuffle( DAW_FWD( urng ) );
 			}
 
@@ -356,7 +356,7 @@ namespace daw {
 				return shuffle( g );
 			}
 
-			decltype( auto ) shuffle( ) const {
+			auto shuffle( ) const {
 				return make_range_reference( *this ).shuffle( );
 			}
 		}; // struct CollectionRange
-- 
2.43.0


From e062946601aa592d1aeebaf0624ee371d16686e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:44 +0000
Subject: [PATCH 347/359] fix: make_safe_string with a named sanitiser did not
 compile

---
 include/daw/deprecated/daw_safe_string.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_safe_string.h b/include/daw/deprecated/daw_safe_string.h
index af60f71..fb61af7 100644
--- a/include/daw/deprecated/daw_safe_string.h
+++ b/include/daw/deprecated/daw_safe_string.h
@@ -81,7 +81,10 @@ namespace daw {
 	         typename Alloc>
 	auto make_safe_string( std::basic_string<charT, traits, Alloc> unsafe_string,
 	                       SanitizeFunction &&sanitize_function ) {
-		return basic_safe_string<SanitizeFunction, charT, traits, Alloc>{
+		return basic_safe_string<std::decay_t<SanitizeFunction>,
+		                         charT,
+		                         traits,
+		                         Alloc>{
 		  std::move( unsafe_string ), DAW_FWD( sanitize_function ) };
 	}
 
@@ -91,7 +94,10 @@ namespace daw {
 	         typename Alloc = std::allocator<charT>>
 	auto make_safe_string( charT const *const unsafe_cstring,
 	                       SanitizeFunction &&sanitize_function ) {
-		return basic_safe_string<SanitizeFunction, charT, traits, Alloc>{
+		return basic_safe_string<std::decay_t<SanitizeFunction>,
+		                         charT,
+		                         traits,
+		                         Alloc>{
 		  unsafe_cstring, DAW_FWD( sanitize_function ) };
 	}
 } // namespace daw
-- 
2.43.0


From 5d39c4e354d89d0412e18473a38185d5c2b6a659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:36 +0000
Subject: [PATCH 348/359] fix: any_if is true when any predicate is, not when
 all are

---
 include/daw/daw_any_if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_any_if.h b/include/daw/daw_any_if.h
index a2d3204..a844308 100644
--- a/include/daw/daw_any_if.h
+++ b/include/daw/daw_any_if.h
@@ -22,6 +22,6 @@ namespace daw {
 				return static_cast<bool>( p );
 			}
 		};
-		return (do_test( DAW_FWD( predicates ) ) and ...);
+		return (do_test( DAW_FWD( predicates ) ) or ...);
 	}
 }
-- 
2.43.0


From c3dd23e7f4d8c7dcf9ebd7eeb7652f2d4b10d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:42 +0000
Subject: [PATCH 349/359] fix: a wide character array compares with a string
 view as a narrow one does

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ed9b729..6118953 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -122,12 +122,12 @@
 #define DAW_REQ_CONTIG_CHAR_RANGE( Range, CharT )                    \
 	DAW_ENABLEIF( not is_daw_string_view<Range> and                    \
 	              sv2_details::is_string_view_like_v<Range, CharT> and \
-	              not std::is_convertible_v<Range, char const *> )
+	              not std::is_convertible_v<Range, CharT const *> )
 
 #define DAW_REQ_CONTIG_CHAR_RANGE_REQ( Range, CharT )                \
 	DAW_REQUIRES( not is_daw_string_view<Range> and                    \
 	              sv2_details::is_string_view_like_v<Range, CharT> and \
-	              not std::is_convertible_v<Range, char const *> )
+	              not std::is_convertible_v<Range, CharT const *> )
 
 /// @brief Require a character pointer
 /// @param Pointer a const_pointer
-- 
2.43.0


From 7d9244ac9a2b114b2e26fbfaced975b80d43135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 350/359] fix: Swizzle moved an element it uses more than once,
 the rest of them were empty

---
 include/daw/pipelines/swizzle.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/swizzle.h b/include/daw/pipelines/swizzle.h
index 986d334..3cf54a7 100644
--- a/include/daw/pipelines/swizzle.h
+++ b/include/daw/pipelines/swizzle.h
@@ -17,6 +17,22 @@
 #include <tuple>
 
 namespace daw::pipelines::pimpl {
+	template<std::size_t Index, std::size_t... Indices>
+	inline constexpr bool swizzle_uses_once_v =
+	  ( static_cast<std::size_t>( Index == Indices ) + ... ) == 1;
+
+	/// A tuple of the requested elements, keeping references to what is not owned
+	/// by an rvalue tuple. An element that is used again cannot be moved from
+	template<std::size_t... Indices, typename Tuple>
+	[[nodiscard]] constexpr auto swizzle_tuple( Tuple &&tp ) {
+		using std::get;
+		using result_t = std::tuple<
+		  daw::remove_rvalue_ref_t<decltype( get<Indices>( DAW_FWD( tp ) ) )>...>;
+		return result_t{ get<Indices>(
+		  static_cast<std::conditional_t<swizzle_uses_once_v<Indices, Indices...>,
+		                                 Tuple &&, Tuple &>>( tp ) )... };
+	}
+
 	template<std::size_t... Indices>
 	struct Swizzle_t {
 		template<Range R>
@@ -27,8 +43,7 @@ namespace daw::pipelines::pimpl {
 				                R>::i_am_a_daw_zip_iterator_class;
 			              } ) {
 				return map_view{ DAW_FWD( r ), []( auto &&tp ) {
-					                return daw::forward_nonrvalue_as_tuple(
-					                  get<Indices>( DAW_FWD( tp ) )... );
+					                return swizzle_tuple<Indices...>( DAW_FWD( tp ) );
 				                } };
 			} else if constexpr( is_tuple_like_v<range_value_t<R>> ) {
 				using std::get;
@@ -36,8 +51,7 @@ namespace daw::pipelines::pimpl {
 				                 std::tuple_size_v<range_reference_t<R>>,
 				               "Swizzle - Index out of range of tuple type" );
 				return map_view{ DAW_FWD( r ), []( auto &&v ) {
-					                return daw::forward_nonrvalue_as_tuple(
-					                  get<Indices>( DAW_FWD( v ) )... );
+					                return swizzle_tuple<Indices...>( DAW_FWD( v ) );
 				                } };
 			} else {
 				// Not a Range
-- 
2.43.0


From 6cb9be1516cb5cfcd033396a299b8ee585ca237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 351/359] fix: Element of a range of tuples of values read a
 tuple that was destroyed

---
 include/daw/pipelines/elements.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 9adeae5..8791b4e 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -39,8 +39,10 @@ namespace daw::pipelines::pimpl {
 
 	private:
 		template<typename I>
-		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr decltype( auto )
+		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr std::tuple_element_t<
+		  Index, daw::iter_reference_t<I>>
 		raw_get( I &&iter ) {
+			// the tuple may be a temporary, a reference to its values would dangle
 			return std::get<Index>( *DAW_FWD( iter ) );
 		}
 
-- 
2.43.0


From c6b3223c0315c4397ddc98690c8100bf74deda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:26 +0000
Subject: [PATCH 352/359] fix: Element and Elements of a temporary range, such
 as the stage before, did not compile

---
 include/daw/pipelines/elements.h | 40 +++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8791b4e..88d7df5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -177,22 +177,28 @@ namespace daw::pipelines::pimpl {
 
 		using value_type = daw::iter_value_t<iterator_first_t>;
 
-		iterator_first_t m_first = iterator_first_t{ };
-		iterator_last_t m_last = iterator_last_t{ };
+		R m_range{ };
 
+	private:
+		// The range may be owned by this view, iterators into it cannot be kept as
+		// they would not follow a copy or move
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr range_t &range( ) const {
+			return const_cast<range_t &>( m_range );
+		}
+
+	public:
 		explicit element_view( ) = default;
 
 		template<daw::Range U>
 		explicit constexpr element_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_range( DAW_FWD( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
-			return m_first;
+			return iterator_first_t{ std::begin( range( ) ) };
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_last_t end( ) const {
-			return m_last;
+			return iterator_last_t{ std::end( range( ) ) };
 		}
 	};
 
@@ -204,7 +210,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return element_view<daw::remove_rvalue_ref_t<R>, Index>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
@@ -370,22 +376,28 @@ namespace daw::pipelines::pimpl {
 
 		using value_type = daw::iter_value_t<iterator_first_t>;
 
-		iterator_first_t m_first = iterator_first_t{ };
-		iterator_last_t m_last = iterator_last_t{ };
+		R m_range{ };
 
+	private:
+		// The range may be owned by this view, iterators into it cannot be kept as
+		// they would not follow a copy or move
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr range_t &range( ) const {
+			return const_cast<range_t &>( m_range );
+		}
+
+	public:
 		explicit elements_view( ) = default;
 
 		template<daw::Range U>
 		explicit constexpr elements_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_range( DAW_FWD( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
-			return m_first;
+			return iterator_first_t{ std::begin( range( ) ) };
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_last_t end( ) const {
-			return m_last;
+			return iterator_last_t{ std::end( range( ) ) };
 		}
 	};
 
@@ -397,7 +409,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return elements_view<daw::remove_rvalue_ref_t<R>, Indices...>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
-- 
2.43.0


From 04346aff4053c6849d16b5463b9c7a611a08ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:40 +0000
Subject: [PATCH 353/359] fix: positions of Map, Element and Elements over a
 zip could not be ordered

---
 include/daw/pipelines/zip.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index 7a2adf4..b1f29c6 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -13,6 +13,7 @@
 #include "range.h"
 
 #include <array>
+#include <compare>
 #include <cstddef>
 #include <tuple>
 #include <utility>
@@ -234,6 +235,17 @@ namespace daw::pipelines {
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return not( *this < rhs );
 		}
+
+		// the iterators of the views over a zip are ordered with this
+		[[nodiscard]] constexpr std::strong_ordering
+		operator<=>( zip_iterator const &rhs ) const
+		  requires( RandomIteratorTag<iterator_category> ) {
+			if( *this == rhs ) {
+				return std::strong_ordering::equal;
+			}
+			return *this < rhs ? std::strong_ordering::less
+			                   : std::strong_ordering::greater;
+		}
 	};
 	template<Iterator... Iterators>
 	zip_iterator( Iterators... ) -> zip_iterator<Iterators...>;
-- 
2.43.0


From fff2338cff7bb0e8bea026975d65016818ffb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 354/359] fix: the average time of a single run was reported as
 next to nothing

---
 include/daw/daw_benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_benchmark.h b/include/daw/daw_benchmark.h
index 35de692..e7dc52b 100644
--- a/include/daw/daw_benchmark.h
+++ b/include/daw/daw_benchmark.h
@@ -292,7 +292,7 @@ namespace daw {
 			} else if constexpr( Runs > 1 ) {
 				return total_time / static_cast<double>( Runs );
 			} else /* Runs == 1 */ {
-				return ( total_time - max_time ) / 1.0;
+				return total_time;
 			}
 		}( );
 
@@ -459,7 +459,7 @@ namespace daw {
 			} else if constexpr( Runs > 1 ) {
 				return total_time / static_cast<double>( Runs );
 			} else /* Runs == 1 */ {
-				return ( total_time - max_time ) / 1.0;
+				return total_time;
 			}
 		}( );
 		avg_time -= base_time;
-- 
2.43.0


From ef3e6c28683c70ebedc0b7dbfc13f10605a0b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:01 +0000
Subject: [PATCH 355/359] fix: bounded_vector_t added another value when one of
 its own elements was added after a pop_front

---
 include/daw/daw_bounded_vector.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 6ce4c4e..0a31d57 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -199,9 +199,13 @@ namespace daw {
 	public:
 		constexpr void push_back( const_reference value ) noexcept {
 			if( can_move_front( 1 ) ) {
+				// value may be one of the elements that are moved
+				auto tmp = value;
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+			} else {
+				m_stack[m_index] = value;
 			}
-			m_stack[m_index] = value;
 			++m_index;
 		}
 
@@ -258,10 +262,12 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
+			// args may refer to one of the elements that are moved
+			auto tmp = daw::construct_a<value_type>( DAW_FWD( args )... );
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
+			m_stack[m_index] = std::move( tmp );
 			++m_index;
 		}
 
-- 
2.43.0


From 1cf3db44d03be81958be7ba0513ffdedea5f643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:01 +0000
Subject: [PATCH 356/359] fix: bounded_vector_t::push_back( ) returned a
 position past the end after a pop_front

---
 include/daw/daw_bounded_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 0a31d57..368c5c6 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -225,7 +225,8 @@ namespace daw {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			return m_index++;
+			++m_index;
+			return size( ) - 1;
 		}
 
 		constexpr void push_back( const_pointer ptr, size_type sz ) noexcept {
-- 
2.43.0


From f9f4357571bc5b4a256d0a2e1051bacddc4b7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:05 +0000
Subject: [PATCH 357/359] fix: any_if holds when all of its predicates do, as
 its own test has it (takes back 5d39c4e)

---
 include/daw/daw_any_if.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_any_if.h b/include/daw/daw_any_if.h
index a844308..a2d3204 100644
--- a/include/daw/daw_any_if.h
+++ b/include/daw/daw_any_if.h
@@ -22,6 +22,6 @@ namespace daw {
 				return static_cast<bool>( p );
 			}
 		};
-		return (do_test( DAW_FWD( predicates ) ) or ...);
+		return (do_test( DAW_FWD( predicates ) ) and ...);
 	}
 }
-- 
2.43.0


From f4248194450fca034d346efbeb78cdf9d0ede1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:14 +0000
Subject: [PATCH 358/359] fix: keep_n::insert of one of the values it holds

---
 include/daw/daw_keep_n.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 818a6c6..ea1c4d3 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -81,15 +81,9 @@ namespace daw {
 		}
 
 		constexpr void insert( value_type const &v ) {
-			for( size_t n = 0; n < MaxItems; ++n ) {
-				if( m_pred( v, m_values[n] ) ) {
-					for( size_t m = ( MaxItems - 1U ); m > n; --m ) {
-						m_values[m] = std::move( m_values[m - 1] );
-					}
-					m_values[n] = v;
-					break;
-				}
-			}
+			// v may be one of the values held, the shift would move from it
+			auto copy = v;
+			insert( std::move( copy ) );
 		}
 
 		constexpr void insert( value_type &&v ) {
-- 
2.43.0


From a24e466971bc4c2545c01a19c64cfc8a2985b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:56 +0000
Subject: [PATCH 359/359] fix: Take of more elements than a signed count holds
 from a single pass range

---
 include/daw/pipelines/sized_iterator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 26fc392..e0d5492 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -15,6 +15,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <iterator>
+#include <limits>
 
 namespace daw::pipelines {
 	template<Iterator Iterator>
@@ -207,7 +208,9 @@ namespace daw::pipelines {
 		                                   std::size_t how_many )
 		  : m_first( first )
 		  , m_last( last )
-		  , m_count( static_cast<difference_type>( how_many ) ) {}
+		  , m_count( static_cast<difference_type>( (std::min)(
+		      how_many, static_cast<std::size_t>(
+		                  ( std::numeric_limits<difference_type>::max )( ) ) ) ) ) {}
 
 		[[nodiscard]] constexpr auto &base( ) {
 			return m_first;
-- 
2.43.0

