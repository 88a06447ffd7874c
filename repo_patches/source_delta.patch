From e957497fec5f6733a20d1bd2d5ec3a73e5f7da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 001/127] fix: string_view substr_unsafe must not claim zero
 termination the source does not have

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..250058d 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1840,7 +1840,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( is_zero_terminated( ) and pos + count == size( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 8744a89ad8a4b6c0ffdeb80a7a8ad5579551cb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 002/127] fix: string_view pop_front_unsafe( count ) returns
 only the popped characters

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 250058d..79e5083 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1162,7 +1162,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From ba6d4b52b2ce18dbc459dc23e8693003fc649ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 003/127] fix: string_view find( CharT, pos ) returns a
 position in the view and stays inside it

---
 include/daw/daw_string_view.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 79e5083..4825e5e 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2005,8 +2005,8 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
+						                                 data( ) );
+					} else if constexpr( std::is_same_v<CharT, wchar_t> ) {
 						wchar_t const *r =
 						  ::wmemchr( const_cast<wchar_t *>(
 						               reinterpret_cast<wchar_t const *>( first ) ),
@@ -2016,11 +2016,11 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
+						  reinterpret_cast<CharT const *>( r ) - data( ) );
 					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
+						for( std::size_t n = 0; n < sz; ++n ) {
 							if( first[n] == c ) {
-								return n;
+								return pos + n;
 							}
 						}
 						return npos;
@@ -2028,9 +2028,9 @@ namespace daw {
 				}
 				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
+					for( std::size_t n = 0; n < sz; ++n ) {
 						if( first[n] == c ) {
-							return n;
+							return pos + n;
 						}
 					}
 					return npos;
-- 
2.43.0


From 773f7769ab2f654dcf6cad0115fb3a668147efbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 004/127] fix: string_view find and find_first_match reject a
 position past the end

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 4825e5e..ffde952 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2053,7 +2053,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( size( ) < pos or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2100,7 +2100,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( size( ) < pos or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From e839f85c6c5c273b6c5c4b4237d5e4eb2e8ab31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 005/127] fix: string_view find_first_match tries every needle
 at every position

---
 include/daw/daw_string_view.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ffde952..ebd06c0 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,10 +362,8 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
@@ -373,7 +371,7 @@ namespace daw {
 								return haystack.data( );
 							}
 							if( it == last ) {
-								return last;
+								break;
 							}
 							if( not( *it == *s_it ) ) {
 								break;
-- 
2.43.0


From 41b9fd2ed0057f44b6c39a819242d62505801a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 006/127] fix: string_view search finds a match that ends at
 the end of the view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ebd06c0..9d6e32a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2208,7 +2208,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( pos > size( ) or v.size( ) > size( ) - pos or v.empty( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
-- 
2.43.0


From c72021945a23f229bfc3ab662007c9209617f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 007/127] fix: string_view search_last returns the last match
 and npos when there is none

---
 include/daw/daw_string_view.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 9d6e32a..33d50f1 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2229,17 +2229,11 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
-					return npos;
-				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 539b28c2f7493598abad5d61baafe305d18d4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 008/127] fix: string_view contains( s, pos, count ) compares
 with npos

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 33d50f1..99e30b6 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2082,7 +2082,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From 1a73be43be8f993f0f3db8236e2e8707be586906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 009/127] fix: string_view find_last_not_of does not read one
 past the end

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 99e30b6..457628a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2449,7 +2449,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2473,7 +2473,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 7356e133704e8c81c345dc124b0e82b78b771e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 010/127] fix: string_view overloads that could not be
 instantiated

---
 include/daw/daw_string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 457628a..932b59b 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1379,7 +1379,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1769,7 +1769,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
@@ -2762,7 +2762,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 4572fc608af9fceb39d71e2ab10ba421e7f3b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 011/127] fix: string_view try_pop_front_until( pred ) removes
 nothing when nothing matches

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 932b59b..6373b00 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1577,7 +1577,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From 3249fc9b3b069c112ee19d470c1bb6b517458391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 012/127] fix: string_view pop_back_until( str, nodiscard )
 keeps the delimiter in the view

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6373b00..a9cd34a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1363,7 +1363,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( ( size( ) - pos ) - where.size( ) );
 				return result;
 			}
 
@@ -1616,7 +1616,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( ( size( ) - pos ) - where.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From a39b3aa12e252c4421264a33a60ae4fa80b363a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:32 +0000
Subject: [PATCH 013/127] fix: string_view try_pop_back_until returns the text
 after the delimiter

---
 include/daw/daw_string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a9cd34a..11825d1 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1631,7 +1631,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1647,7 +1647,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1670,7 +1670,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1693,7 +1693,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From f5c79f2cdb051a5cbf157e66da374a7ac804575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 014/127] fix: contiguous_view::subspan returns the elements
 starting at offset

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..0e024e5 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( { size( ), offset } );
+			auto const sz = std::min( { count, size( ) - offset } );
+			return contiguous_view( data( ) + offset, data( ) + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			auto sz = std::min( count, size( ) - offset );
+			return contiguous_view( data( ) + offset, data( ) + offset + sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From 2b82fad49daf0dd4ab96e0c3f583418442cf8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 015/127] fix: span<T const>::crend is one before the first
 element

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 0207ecba3f0d35a1f96b3a190e6cd4961a67d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 016/127] fix: bitset::unset clears only the named bit

---
 include/daw/daw_bitset.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/daw_bitset.h b/include/daw/daw_bitset.h
index 194bb8c..f75fffd 100644
--- a/include/daw/daw_bitset.h
+++ b/include/daw/daw_bitset.h
@@ -44,7 +44,6 @@ namespace daw {
 
 		DAW_ATTRIB_INLINE constexpr void unset( std::size_t index ) {
 			assert( index < size( ) );
-			m_bits[get_limb( index )] &= ~( 1u << index % 4 );
 			auto const limb = get_limb( index );
 			auto const mask = get_mask( index );
 			m_bits[limb] &= ~mask;
-- 
2.43.0


From 831ecd439261d9e6387642acebb368b44c9a89b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 017/127] fix: static_bitset set_bit, clear_bit and get_bit
 address the named bit

---
 include/daw/daw_static_bitset.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index bfd8fd0..f5b406c 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -130,15 +130,15 @@ namespace daw {
 		}
 
 		static constexpr void set_bit( value_t &value, value_t bit ) noexcept {
-			value |= static_cast<value_t>( bit << 1U );
+			value |= static_cast<value_t>( value_t{ 1U } << bit );
 		}
 
 		static constexpr void clear_bit( value_t &value, value_t bit ) noexcept {
-			value &= static_cast<value_t>( ~static_cast<value_t>( bit << 1U ) );
+			value &= static_cast<value_t>( ~( value_t{ 1U } << bit ) );
 		}
 
 		static constexpr bool get_bit( value_t &value, value_t bit ) noexcept {
-			return ( value & static_cast<value_t>( bit << 1U ) ) != 0U;
+			return ( value & static_cast<value_t>( value_t{ 1U } << bit ) ) != 0U;
 		}
 
 		static constexpr size_t count_ones( value_t value ) noexcept {
-- 
2.43.0


From d9c85cdea22a79545547818cf57f676b03bd8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 018/127] fix: static_bitset shifts carry the right bits and
 stay inside the storage

---
 include/daw/daw_static_bitset.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index f5b406c..77c6b2d 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -466,11 +466,13 @@ namespace daw {
 				clear( );
 				return *this;
 			}
+			if( bits == 0U ) {
+				return *this;
+			}
 			if( bits < bsizeof<value_t> ) {
 				value_t carry = 0U;
 				for( size_t n = 0; n < m_data.size( ); ++n ) {
-					value_t next_carry = ( m_data[n] & daw::mask_lsb<value_t>( bits ) ) >>
-					                     ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[n] >> ( bsizeof<value_t> - bits );
 					m_data[n] <<= bits;
 					m_data[n] |= carry;
 					carry = next_carry;
@@ -478,7 +480,7 @@ namespace daw {
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = m_data.size( ); n > 0; --n ) {
+				for( size_t n = m_data.size( ); n > 1; --n ) {
 					auto pos = n - 1;
 					m_data[pos] = m_data[pos - 1];
 				}
@@ -504,8 +506,7 @@ namespace daw {
 				value_t carry = 0U;
 				for( size_t n = m_data.size( ); n > 0; --n ) {
 					auto const pos = n - 1;
-					value_t next_carry = ( m_data[pos] & daw::mask_msb<value_t>( bits ) )
-					                     << ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[pos] << ( bsizeof<value_t> - bits );
 					m_data[pos] >>= bits;
 					m_data[pos] |= carry;
 					carry = next_carry;
@@ -513,7 +514,7 @@ namespace daw {
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = 0; n < m_data.size( ); ++n ) {
+				for( size_t n = 0; n + 1 < m_data.size( ); ++n ) {
 					m_data[n] = m_data[n + 1];
 				}
 				m_data.back( ) = 0U;
-- 
2.43.0


From 766f6c710cc90cb353b0d9922980170460c03b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:05 +0000
Subject: [PATCH 019/127] fix: bit queues move bits correctly at every width
 and position

---
 include/daw/daw_bit_queues.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..b545f0c 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,8 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue << bits )
+			                             : queue_type{ 0 };
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +100,8 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			m_queue = bits < capacity( ) ? static_cast<queue_type>( m_queue >> bits )
+			                             : queue_type{ 0 };
 			m_size -= bits;
 			return result;
 		}
@@ -107,11 +109,14 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
+			if( bits == 0 ) {
+				return 0;
+			}
+			auto const low_bits = size( ) - bits;
+			auto const result = static_cast<value_type>(
+			  ( m_queue >> low_bits ) & mask_msb<queue_type>( capacity( ) - bits ) );
+			m_queue = static_cast<queue_type>(
+			  m_queue & mask_msb<queue_type>( capacity( ) - low_bits ) );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From ab435d631e4e13ba760d25c818347516ee63d44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:30 +0000
Subject: [PATCH 020/127] fix: static_bitset keeps every bit below its width on
 construction

---
 include/daw/daw_static_bitset.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 77c6b2d..afa25d2 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -88,16 +88,11 @@ namespace daw {
 
 		template<size_t BitWidth, typename value_t>
 		constexpr value_t get_diff_mask( ) noexcept {
-			size_t bw = BitWidth;
-			if( bw > bsizeof<value_t> ) {
-				bw %= bsizeof<value_t>;
-			} else if( bw < bsizeof<value_t> ) {
-				bw = bsizeof<value_t> - bw;
-			}
-			if( bw == 0 ) {
+			constexpr size_t used = BitWidth % bsizeof<value_t>;
+			if( used == 0 ) {
 				return max_value<value_t>;
 			}
-			return daw::mask_msb<value_t>( bw );
+			return daw::mask_msb<value_t>( bsizeof<value_t> - used );
 		}
 	} // namespace bitset_impl
 	inline constexpr bitset_impl::fmt_binary_t const fmt_binary{ };
-- 
2.43.0


From 58ca9d958e70e979548d6082b531dc4b98afdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 021/127] fix: conversions from a foreign byte order swap the
 bytes

---
 include/daw/daw_endian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..3b478b8 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -135,7 +135,7 @@ namespace daw {
 		if constexpr( endian::native == endian::big ) {
 			return value;
 		} else {
-			return to_little_endian( value );
+			return to_big_endian( value );
 		}
 	}
 
@@ -145,9 +145,9 @@ namespace daw {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
 		} else if constexpr( endian::native == endian::little ) {
-			return to_little_endian( value );
-		} else {
 			return to_big_endian( value );
+		} else {
+			return to_little_endian( value );
 		}
 	}
 } // namespace daw
-- 
2.43.0


From faff332d3416b614540f27652ccbb637dae733ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 022/127] fix: rotating UInt32 and UInt64 by zero or the full
 width does not over-shift

---
 include/daw/daw_uint_types.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..f00c7c3 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) | ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits % 64U ) ) | ( value >> ( ( 64U - bits ) % 64U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) | ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits % 64U ) ) | ( value << ( ( 64U - bits ) % 64U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1075,21 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) | ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits % 32U ) ) | ( value >> ( ( 32U - bits ) % 32U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) | ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits % 32U ) ) | ( value << ( ( 32U - bits ) % 32U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
-- 
2.43.0


From be7991e1a2dd3e4faf92424cae5772d6748d9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 023/127] fix: the _u8 and _u16 literals accept the largest
 value

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index f00c7c3..e47d38c 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3325,13 +3325,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From bc8e81d50232fbd522deb5eb740ee5eb3db7e130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 024/127] fix: multiplying or dividing a byte by a UInt64 no
 longer truncates the UInt64

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index e47d38c..bcc809d 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2561,7 +2561,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator*( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator*( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( lhs * static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
@@ -2594,7 +2594,7 @@ namespace daw {
 		return lhs;
 	}
 
-	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
+	constexpr UInt8 operator/( std::uint8_t lhs, UInt8 rhs ) noexcept {
 		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
 		                                 static_cast<std::uint32_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
-- 
2.43.0


From a0cd1d507597980f5f72aa90224594cfd4c0cff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 025/127] fix: negating UInt32 and UInt64 does not overflow a
 signed integer

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index bcc809d..00970c2 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1745,7 +1745,7 @@ namespace daw {
 
 	constexpr UInt64 operator-( UInt64 value ) {
 		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		  std::uint64_t{ 0 } - static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2129,7 +2129,7 @@ namespace daw {
 
 	constexpr UInt32 operator-( UInt32 value ) {
 		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		  std::uint32_t{ 0 } - static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
-- 
2.43.0


From eeba9a54e00a02bea1ad341acb01fd97eb0aa403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 026/127] fix: cxmath::is_even is true for even integers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..a296fd6 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1022,7 +1022,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From d88cfb7af6ef59ac9cd50cd6e4b56aa736ceb1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 027/127] fix: cxmath::set_exponent to zero keeps sign and
 significand

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a296fd6..5f5998a 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From f47e67376913ba18d512dbfa20dccf40d879d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 028/127] fix: cxmath::pow2 of the smallest normal exponents is
 not zero

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 5f5998a..304882c 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -777,7 +777,7 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
 			return Real{ 0 };
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
-- 
2.43.0


From c1917e9e885d703d32bd6b45849b6ebd6334f10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 029/127] fix: popcount of a narrow negative integer counts
 only its own bits

---
 include/daw/daw_cxmath.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 304882c..aac583a 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1303,7 +1303,12 @@ namespace daw::cxmath {
 		static_assert( std::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
 		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-			return __builtin_popcount( static_cast<unsigned>( i ) );
+			if constexpr( sizeof( Integer ) < sizeof( int ) ) {
+				return __builtin_popcount( static_cast<unsigned>( i ) &
+				                           ( ( 1U << bit_count_v<Integer> ) - 1U ) );
+			} else {
+				return __builtin_popcount( static_cast<unsigned>( i ) );
+			}
 		} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 			return __builtin_popcountl( static_cast<unsigned long>( i ) );
 #if defined( DAW_HAS_INT128 )
-- 
2.43.0


From 153bf2c568299034c480632f11dbfb4d3ad258c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 030/127] fix: math::pow multiplies the base exponent times

---
 include/daw/daw_math.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..66376bd 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -172,10 +172,11 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
+			T result = 1;
 			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+				result *= base;
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
-- 
2.43.0


From 1bb2de995e51441983a945e1c0eda8c5bdb15d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 031/127] fix: math::abs of the lowest value of a narrow
 integer

---
 include/daw/daw_math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 66376bd..d04e917 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -146,7 +146,8 @@ namespace daw::math {
 			return pow2<Result>( bsizeof<intmax_t> - 1 );
 		}
 		if( v < 0 ) {
-			v = -v;
+			return static_cast<Result>( uintmax_t{ 0 } -
+			                            static_cast<uintmax_t>( v ) );
 		}
 		return static_cast<Result>( v );
 	}
-- 
2.43.0


From d284dbd0f9c0a7996e2f41426190c538caf8867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:39 +0000
Subject: [PATCH 032/127] fix: math::round, floor and ceil of negative and
 integral numbers

---
 include/daw/daw_math.h | 44 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index d04e917..c383ed8 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -48,7 +48,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const whole = static_cast<Result>( d );
+		auto const part = d - static_cast<float>( whole );
+		if( part >= static_cast<float>( 0.5 ) ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		if( part <= static_cast<float>( -0.5 ) ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +64,15 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const whole = static_cast<Result>( d );
+		auto const part = d - static_cast<double>( whole );
+		if( part >= static_cast<double>( 0.5 ) ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		if( part <= static_cast<double>( -0.5 ) ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -64,7 +80,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		auto const whole = static_cast<Result>( d );
+		if( d < static_cast<float>( whole ) ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -72,7 +92,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		auto const whole = static_cast<Result>( d );
+		if( d < static_cast<double>( whole ) ) {
+			return static_cast<Result>( whole - 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -80,7 +104,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const whole = static_cast<Result>( d );
+		if( d > static_cast<float>( whole ) ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		return whole;
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +116,11 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const whole = static_cast<Result>( d );
+		if( d > static_cast<double>( whole ) ) {
+			return static_cast<Result>( whole + 1 );
+		}
+		return whole;
 	}
 
 	template<typename T>
-- 
2.43.0


From c27bb7d275c190c04e08d18d63184aadc10e236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:13 +0000
Subject: [PATCH 033/127] fix: count_trailing_zeros does not overflow a signed
 integer

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index aac583a..0850369 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -572,7 +572,7 @@ namespace daw::cxmath {
 				return 32U;
 			}
 			std::uint32_t c = 32U;
-			v &= static_cast<std::uint32_t>( -static_cast<std::int32_t>( v ) );
+			v &= std::uint32_t{ 0 } - v;
 			if( v ) {
 				c--;
 			}
-- 
2.43.0


From 0a1c162a73f73b177e37e15f1cb63500c9cdd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 034/127] fix: parse_to rejects integers that do not fit and
 texts without digits or closing quote

---
 include/daw/daw_parse_to.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..dfa9e68 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -42,10 +42,9 @@ namespace daw {
 			namespace helpers {
 				template<typename Result>
 				constexpr Result parse_int( daw::string_view &str ) {
-					intmax_t count = std::numeric_limits<Result>::digits;
 					Result result = 0;
 					bool is_neg = false;
-					if( '-' == str.front( ) ) {
+					if( not str.empty( ) and '-' == str.front( ) ) {
 
 						daw::exception::precondition_check<invalid_input_exception>(
 						  std::numeric_limits<Result>::is_signed );
@@ -53,25 +52,31 @@ namespace daw {
 						is_neg = true;
 						str.remove_prefix( );
 					}
-					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
-						--count;
+					daw::exception::precondition_check<invalid_input_exception>(
+					  not str.empty( ) );
+					// Negative numbers are accumulated downward so that the lowest
+					// value can be parsed
+					while( !str.empty( ) and is_number( str.front( ) ) ) {
+						auto const digit = static_cast<Result>( str.front( ) - '0' );
+						daw::exception::precondition_check<numeric_overflow_exception>(
+						  is_neg
+						    ? result >= ( std::numeric_limits<Result>::min( ) + digit ) / 10
+						    : result <= ( std::numeric_limits<Result>::max( ) - digit ) / 10 );
+						result = static_cast<Result>( result * 10 );
+						result = static_cast<Result>( is_neg ? result - digit
+						                                     : result + digit );
 						str.remove_prefix( );
 					}
 
 					daw::exception::precondition_check<numeric_overflow_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
 					return result;
 				}
 
 				template<typename Result>
 				constexpr Result parse_unsigned_int( daw::string_view &str ) {
 					daw::exception::precondition_check<invalid_input_exception>(
-					  '-' != str.front( ) );
+					  not str.empty( ) and '-' != str.front( ) );
 
 					return parse_int<Result>( str );
 				}
@@ -137,7 +142,7 @@ namespace daw {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From 8b043e23f6a71beb1c23d5a6e56bba4b174dbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:56 +0000
Subject: [PATCH 035/127] fix: parse_int and parse_unsigned_int accept every
 number that fits and only digits

---
 include/daw/daw_parser_addons.h | 50 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..13e7c13 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -50,20 +50,21 @@ namespace daw::parser {
 	constexpr void parse_unsigned_int( ForwardIterator first,
 	                                   ForwardIterator last, Result &result ) {
 		result = Result{};
-		auto count = std::numeric_limits<Result>::digits10;
 
 		daw::exception::precondition_check<ParserOutOfRangeException>(
-			'-' != *first,
+			first != last and '-' != *first,
 			"Negative values are unsupported" );
 
-		for(; first != last and count > 0; ++first, --count) {
-			result *= Result{10};
+		for(; first != last; ++first) {
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				is_number( *first ),
+				"Expected a digit" );
 			Result const val = from_num_char<Result>( *first );
-			result += val;
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				result <= (std::numeric_limits<Result>::max( ) - val) / 10,
+				"Not enough room to store number" );
+			result = static_cast<Result>(result * 10 + val);
 		}
-		daw::exception::precondition_check<ParserOutOfRangeException>(
-			first == last,
-			"Not enough room to store number" );
 	}
 
 	template<typename Result, typename ForwardIterator>
@@ -89,18 +90,29 @@ namespace daw::parser {
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
-		bool is_neg = false;
-		if('-' == *first) {
-			daw::exception::precondition_check<ParserOutOfRangeException>(
-				std::numeric_limits<Result>::is_signed,
-				"Negative values are unsupported with unsigned Result" );
-
-			is_neg = true;
-			++first;
+		if(first == last or '-' != *first) {
+			result = parse_unsigned_int<Result>( first, last );
+			return;
 		}
-		result = parse_unsigned_int<Result>( first, last );
-		if(is_neg) {
-			result *= static_cast<Result>(-1);
+		daw::exception::precondition_check<ParserOutOfRangeException>(
+			std::numeric_limits<Result>::is_signed,
+			"Negative values are unsupported with unsigned Result" );
+
+		++first;
+		daw::exception::precondition_check<ParserOutOfRangeException>(
+			first != last,
+			"Expected a digit" );
+		result = Result{};
+		// accumulate downward so that the lowest value can be parsed
+		for(; first != last; ++first) {
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				is_number( *first ),
+				"Expected a digit" );
+			Result const val = from_num_char<Result>( *first );
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				result >= (std::numeric_limits<Result>::min( ) + val) / 10,
+				"Not enough room to store number" );
+			result = static_cast<Result>(result * 10 - val);
 		}
 	}
 
-- 
2.43.0


From 56d9492b777afd06e3978a671904782748042f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 036/127] fix: parser::value_in is true for the values in the
 container

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..a38743d 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -200,14 +200,14 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
 	}
 
 	class in_t {
-- 
2.43.0


From 3cadfeeb56ad6f8e8b9a2060261d958b4fa14dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 037/127] fix: parser::is_true with several predicates passes
 the value to the predicate

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index a38743d..ba89154 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -253,7 +253,7 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
+		return is_true( value, DAW_FWD( predicate ) ) or
 		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
 	}
 
-- 
2.43.0


From 93d3b53ee28e164acd665dd40e7364d5ccf888bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 038/127] fix: parser::is_cr accepts the carriage return

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index ba89154..ffa5acd 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -428,7 +428,7 @@ namespace daw::parser {
 
 	template<typename T>
 	[[nodiscard]] constexpr bool is_cr( T const &value ) noexcept {
-		return is_a( value, '\n' );
+		return is_a( value, '\r' );
 	}
 
 	template<typename T>
-- 
2.43.0


From 52bf75ec78a022be59727e30529f2e4acf8b0aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 039/127] fix: parser::assert_equal and assert_not_equal throw
 when the assertion is false

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index ffa5acd..cc3ee84 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -316,14 +316,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( lhs != rhs );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From c567d0e20b888477f67b82429babe5675a051905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 040/127] fix: optional::operator-> can be instantiated

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From 97ae10194a1cd0bc38efd503879eaccfcbd050c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:18 +0000
Subject: [PATCH 041/127] fix: optional >= with nullopt or a value on the left

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From 84189a7bbdb05c6d17df664ab9305595449cac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 042/127] fix: expected_t catches exceptions without other
 headers being included first

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..8795ba5 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From c9d06e5900c9665fea8e63602601965f5330d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 043/127] fix: expected_from_code<Result> returns the result of
 the function

---
 include/daw/daw_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 8795ba5..7612937 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -409,9 +409,7 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ), DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From ad08c016f0fb8b4514811d5b18b49024494f5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 044/127] fix: union_pair_t constructs a value before assigning
 to it

---
 include/daw/daw_union_pair.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..aab7ae5 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -17,6 +17,8 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <memory>
+#include <new>
 #include <utility>
 
 namespace daw {
@@ -81,11 +83,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			::new( static_cast<void *>( std::addressof( value0 ) ) )
+			  Type0( DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +98,13 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			::new( static_cast<void *>( std::addressof( value1 ) ) )
+			  Type1( DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From afef5d6cdcebef539ce00a360bf1d9d872431785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 045/127] fix: unique_ptr operator<= compares in the right
 direction

---
 include/daw/daw_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From db91a5d0a9661c99ee6ac306fa361f165215e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 046/127] fix: maybe_unique_ptr operator<= compares in the
 right direction

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..a209b47 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -295,7 +295,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From a27257a328a0ccdce4aae820f0b2bd3fc5287882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 047/127] fix: moving a maybe_unique_ptr keeps whether the
 object is owned

---
 include/daw/daw_maybe_unique_ptr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a209b47..1c4cf1a 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,7 +72,7 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
@@ -99,7 +99,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = std::move( rhs.m_ptr );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
@@ -112,6 +112,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
-- 
2.43.0


From e259d4ed29af526100e01bab4a39086c4d18ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 048/127] fix: maybe_unique_ptr::reset does not delete the
 pointer it is given

---
 include/daw/daw_maybe_unique_ptr.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index 1c4cf1a..740dbc5 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -167,11 +167,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
+			reset( );
 			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
 		}
-- 
2.43.0


From b19a9a862236e776264e5584bd8ed5807d7c7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 049/127] fix: rc_ptr::reset lets go of an object that others
 still share

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From f24a71e930c649a65cb9180ceff11e5bf9809e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 050/127] fix: unique_array_t::at accepts the positions of the
 array

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 2c49362ab059a8553d0584fc428ad64215aad75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 051/127] fix: observer_ptr converts from an observer_ptr of
 another type

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From 6496101ccedb6f74ce533a47ec45eab8abfee8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 052/127] fix: value_ptr copy assignment, release and const
 conversion to bool can be instantiated

---
 include/daw/daw_value_ptr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..a0004e3 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -88,7 +88,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
@@ -144,7 +144,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
@@ -183,7 +183,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From 8af479ee1d6d802a19575e0fee2f5ab5f94f8b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:39 +0000
Subject: [PATCH 053/127] fix: value_ptr copies of and assignments to an empty
 value_ptr

---
 include/daw/daw_value_ptr.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index a0004e3..8ae8bda 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,9 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value
+		               ? std::make_unique<value_type>( *other.m_value )
+		               : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
@@ -122,7 +124,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From b87066a940682576c95efc2408363a1221af0eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:59 +0000
Subject: [PATCH 054/127] fix: unique_array_t can be constructed with initial
 values

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..3e8a9ee 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -85,7 +85,7 @@ namespace daw {
 		  : m_data( create_values( sz ) )
 		  , m_size( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			std::fill_n( m_data, m_size, value_type{ args... } );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From fac3d25650c273c2074bec2473f1275e6b9834c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 055/127] fix: vector::resize_and_overwrite destroys the
 elements past the new end and no others

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..8111033 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -842,7 +842,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -869,7 +869,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From 6fa13f614cfef665718dbd336b76c6a48e1f6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:26 +0000
Subject: [PATCH 056/127] fix: block_append_from appends the elements of the
 range

---
 include/daw/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 8111033..4f33774 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1318,11 +1318,11 @@ namespace daw {
 			v.resize_and_overwrite( cur_size + block_size,
 			                        [&]( T *ptr, std::size_t sz ) {
 				                        ptr += cur_size;
-				                        cur_size += block_size;
 				                        while( cur_size < sz and first != last ) {
 					                        *ptr = *first;
 					                        ++ptr;
 					                        ++first;
+					                        ++cur_size;
 				                        }
 				                        return cur_size;
 			                        } );
-- 
2.43.0


From e284421948cca882d55310819f4fab10619bba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 057/127] fix: split_buffer names the std functions it uses,
 vector::insert of one element can be instantiated

---
 include/daw/split_buffer.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..513174d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
-- 
2.43.0


From dc62e4e446fb529a50f0666d673535736191186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 058/127] fix: split_buffer::reserve grows the capacity

---
 include/daw/split_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index 513174d..313901b 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -224,7 +224,7 @@ namespace daw {
 		}
 
 		constexpr void reserve( size_type n ) {
-			if( n < capacity( ) ) {
+			if( n > capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
 				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 				                    std::move_iterator<pointer>( end_ ) );
-- 
2.43.0


From dd6ceec6024fdbc87a44197acce9038194b9461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 059/127] fix: vector::swap can be instantiated

---
 include/daw/vector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 4f33774..bbbcfd3 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -927,9 +927,7 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
-			                std::bool_constant<
-			                  alloc_traits::propagate_on_container_swap::value>{ } );
+			si_impl::swap_allocator( alloc( ), other.alloc( ) );
 		}
 
 	private:
-- 
2.43.0


From 1ee427f11819a4924db7a68104ec4e75516260f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:07 +0000
Subject: [PATCH 060/127] fix: vector::emplace can be instantiated

---
 include/daw/vector.h | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index bbbcfd3..6aca8be 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -78,6 +78,37 @@ namespace daw::impl {
 		DAW_UNSAFE_BUFFER_FUNC_STOP
 	}
 
+	/// @brief A value constructed and destroyed via the allocator
+	template<typename T, typename Alloc>
+	struct temp_value {
+		using traits_t = std::allocator_traits<Alloc>;
+
+	private:
+		Alloc &m_alloc;
+		union {
+			T m_value;
+		};
+
+	public:
+		template<typename... Args>
+		explicit constexpr temp_value( Alloc &a, Args &&...args )
+		  : m_alloc( a ) {
+			traits_t::construct( m_alloc, std::addressof( m_value ),
+			                     DAW_FWD( args )... );
+		}
+
+		temp_value( temp_value const & ) = delete;
+		temp_value &operator=( temp_value const & ) = delete;
+
+		constexpr ~temp_value( ) {
+			traits_t::destroy( m_alloc, std::addressof( m_value ) );
+		}
+
+		[[nodiscard]] constexpr T &get( ) noexcept {
+			return m_value;
+		}
+	};
+
 	template<typename Alloc, typename Iter, typename Ptr>
 	constexpr void construct_range_forward( Alloc &a, Iter begin1, Iter end1,
 	                                        Ptr &begin2 ) {
@@ -665,7 +696,7 @@ namespace daw {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
 					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					  impl::temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
 					*p = std::move( tmp.get( ) );
 				}
-- 
2.43.0


From ac436236305f1a5891d2512ef1f85b32bfe4fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 061/127] fix: are_equal compares every value with the next

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 72c097b46907f8b15014524f8c2c2a7dba104bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:18 +0000
Subject: [PATCH 062/127] fix: gather can be instantiated

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..face1b9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 670eb679415647205bcb89e9f554e9b3be01179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 063/127] fix: convert_copy and convert_copy_n return the end
 of the output

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index face1b9..7c76380 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2125,13 +2125,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2143,6 +2144,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From e978cb232ccc7c0d2b1a902b39c8f7086d26185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 064/127] fix: algorithm::split keeps the part after the last
 separator

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 7c76380..0e1dba0 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From ad8de9e93bc7633fcdeffdf2ca4c83c3645594d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 065/127] fix: transform_n with an operation that takes the
 position can be instantiated

---
 include/daw/daw_algorithm.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 0e1dba0..0b32c09 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1017,8 +1017,7 @@ namespace daw::algorithm {
 	         typename UnaryOperation>
 	constexpr auto transform_n(
 	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	  UnaryOperation unary_op ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1028,10 +1027,9 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
-
 		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
+			traits::is_output_iterator_test<OutputIterator,
+			                                decltype( unary_op( *first ) )>( );
 			while( count-- > 0 ) {
 				*first_out = unary_op( *first );
 				++first;
@@ -1039,7 +1037,7 @@ namespace daw::algorithm {
 			}
 		} else {
 			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
+				*first_out = unary_op( *first, n );
 			}
 		}
 		struct result_t {
-- 
2.43.0


From 709428a41e600f167efd39ae992658ddb7974f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 066/127] fix: container::max_element of one argument can be
 called

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..5bc12af 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From 45bd6d3b0cd84d139cd50a856e754e173100f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 067/127] fix: container::transform to an output iterator
 returns its end

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 5bc12af..0067fb9 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -324,8 +324,8 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		std::transform( std::cbegin( container ), std::cend( container ), first_out,
-		                unary_operator );
+		return std::transform( std::cbegin( container ), std::cend( container ),
+		                       first_out, unary_operator );
 	}
 
 	template<typename Container,
-- 
2.43.0


From 66a4da9296f65fd0030bf2ef2255b3c689102c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:27 +0000
Subject: [PATCH 068/127] fix: container::transform can be called with an
 lvalue output iterator

---
 include/daw/daw_container_algorithm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 0067fb9..c63cd87 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
-- 
2.43.0


From 0c0f2cf5c21f3d6f7dba53614d93d504bdb94074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 069/127] fix: siphash24 does not sign extend the bytes of the
 data and key

---
 include/daw/daw_sip_hash.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..ce62536 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,12 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			auto const byte_at = [ptr]( size_t n ) {
+				return static_cast<uint64_t>( static_cast<unsigned char>( ptr[n] ) );
+			};
+			return byte_at( 0 ) | byte_at( 1 ) << 8U | byte_at( 2 ) << 16U |
+			       byte_at( 3 ) << 24U | byte_at( 4 ) << 32U | byte_at( 5 ) << 40U |
+			       byte_at( 6 ) << 48U | byte_at( 7 ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From ca53b6f8ffdb1c1d6c9f5c1460f66dc9fdd92aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 070/127] fix: metro::hash64 does not sign extend the last byte

---
 include/daw/daw_metro_hash.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..7b5cc2a 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,9 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash += static_cast<uint64_t>(
+					static_cast<unsigned char>(buff.front( ))) *
+				k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From d8b3b2ac678dfb7b0248aaf43c67c5b27c4e6c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 071/127] fix: fnv1a_hash_t of a C string does not sign extend
 its characters

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..bfd4f43 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,8 +127,7 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
-				hash *= fnv1a_impl::fnv_prime;
+				hash = append_hash( hash, *ptr );
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
 				DAW_UNSAFE_BUFFER_FUNC_STOP
-- 
2.43.0


From ef31794bcb442f9222c5881a8e84f2c366a22a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 072/127] fix: fnv1a_hash of a string view can be called

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index bfd4f43..e0c7e55 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -184,8 +184,7 @@ namespace daw {
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] fnv1a_uint_t fnv1a_hash( StringViewLike &&sv ) {
-		using namespace std;
-		return fnv1a_hash( data( sv ), size( sv ) );
+		return fnv1a_hash( std::data( sv ), std::size( sv ) );
 	}
 
 	template<fnv1a_uint_t N>
-- 
2.43.0


From 6185824f3cdfc10a68bd01d072946baefebd19d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 073/127] fix: a ScopeGuard that was moved from does not run
 its handler

---
 include/daw/daw_scope_guard.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..36e3b2e 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -40,8 +40,23 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			// a moved from optional still has a value
+			other.m_function = std::nullopt;
+		}
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &
+		operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> and
+		  std::is_nothrow_move_assignable_v<FunctionType> ) {
+			if( this != &rhs ) {
+				m_function = std::move( rhs.m_function );
+				rhs.m_function = std::nullopt;
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From 93ac0dc3ff5ad1d31905bd33a58ed931e0bcf70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 074/127] fix: ScopeGuard::dismiss can be instantiated

---
 include/daw/daw_scope_guard.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 36e3b2e..cb55892 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -88,7 +88,7 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
 			m_function = std::optional<FunctionType>( );
 		}
 
-- 
2.43.0


From 3b24ed1d8efa967f08ad7ddb9cf0fdccbbeae113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 075/127] fix: unique_resource::reset lets go of the resource
 it deleted

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..87dd7d2 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -52,6 +52,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value = std::nullopt;
 			}
 		}
 
-- 
2.43.0


From 0c9c9c51b3d44158ba9de7fc9dc6b2ccd3e6c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 076/127] fix: unique_resource move assignment from an empty
 unique_resource or itself

---
 include/daw/daw_unique_resource.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 87dd7d2..4b9145e 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -27,7 +27,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 32fe0168087cf2f0612d5b147d7cb6d9e04faff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:48 +0000
Subject: [PATCH 077/127] fix: countable_resource_t assignment does not change
 the count and returns

---
 include/daw/daw_countable_resource.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..71eaaef 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,8 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			// the number of objects does not change
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From 7e53b16c6ab0e04e1d23b5148df39f73f58d4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 078/127] fix: unique_resource includes the header of assert

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 4b9145e..c6d40b0 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
-- 
2.43.0


From 0cdc03a799105ab5017ee2260f78f75ac460d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:33 +0000
Subject: [PATCH 079/127] fix: scope guard includes the header of assert

---
 include/daw/daw_scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index cb55892..8726049 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
-- 
2.43.0


From d55fecedf5e1655389b9450e00ec5be2a38d0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:47 +0000
Subject: [PATCH 080/127] fix: copying, moving and assigning a stack function
 copies or moves the callable it holds

---
 include/daw/daw_stack_function.h | 41 ++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..6289250 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,15 +46,21 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other.ptr( )->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&other ) {
+				other.ptr( )->move_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
+				auto tmp = function_storage( rhs );
 				clean( );
-				m_data = rhs.m_data;
+				tmp.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -63,7 +69,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs.ptr( )->move_to( &m_data );
 				return *this;
 			}
 
@@ -120,6 +126,9 @@ namespace daw {
 
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
+			// construct a copy of this, or move this, to uninitialized storage
+			virtual void copy_to( void *where ) const = 0;
+			virtual void move_to( void *where ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
 		};
 
@@ -133,6 +142,14 @@ namespace daw {
 				daw::exception::daw_throw<std::bad_function_call>( );
 			}
 
+			void copy_to( void *where ) const override {
+				::new( where ) empty_child( );
+			}
+
+			void move_to( void *where ) override {
+				::new( where ) empty_child( );
+			}
+
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
@@ -181,6 +198,22 @@ namespace daw {
 				}
 			}
 
+			void copy_to( void *where ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					::new( where ) function_child( m_func );
+				} else {
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_to( void *where ) override {
+				if constexpr( std::is_move_constructible_v<Func> ) {
+					::new( where ) function_child( std::move( m_func ) );
+				} else {
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
 		private:
 			template<typename F>
 			[[nodiscard]] static constexpr bool empty_impl( F &&f ) {
-- 
2.43.0


From ac0bfe75a4a19387d5dd49f30921fe7d82bc7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:47 +0000
Subject: [PATCH 081/127] fix: visit with a chosen result reports a valueless
 variant

---
 include/daw/daw_visit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..379fb92 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -401,7 +401,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 2585fd5f99e5f5d95854b1def93215d9da4aee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:47 +0000
Subject: [PATCH 082/127] fix: a copy of a function_view refers to its target
 and not to the function_view

---
 include/daw/daw_function_view.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..8b6485d 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -104,7 +104,10 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<std::decay_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +121,10 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<std::decay_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From 4362a4b002f040c00a4e6ab6501b818ddd95a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 083/127] fix: bind_front includes the header of DAW_FWD

---
 include/daw/daw_bind_front.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..facf2a8 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
-- 
2.43.0


From 6d929e1c75833b5bd5a56d8bf4feb9610c299a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:07 +0000
Subject: [PATCH 084/127] fix: a stack function made from an lvalue holds a
 copy and not a reference

---
 include/daw/daw_stack_function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 6289250..c993267 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -274,7 +274,8 @@ namespace daw {
 		using empty_child = func_impl::empty_child<Result, FuncArgs...>;
 
 		template<typename Func>
-		using function_child = func_impl::function_child<Func, Result, FuncArgs...>;
+		using function_child =
+		  func_impl::function_child<std::decay_t<Func>, Result, FuncArgs...>;
 
 		func_impl::function_storage<MaxSize, function_base> m_storage =
 		  empty_child{ };
-- 
2.43.0


From 3ce8e5b7a12fd24cda6c36fa26613e6e84154060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:34 +0000
Subject: [PATCH 085/127] fix: apply accepts a tuple that is an lvalue

---
 include/daw/daw_apply.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..aec662c 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -145,19 +145,20 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		using tuple_t = std::remove_cv_t<std::remove_reference_t<Tuple>>;
+		static_assert( is_tuple_v<tuple_t>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<tuple_t> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
 				  DAW_FWD( f ), DAW_FWD( t ),
-				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
+				  std::make_index_sequence<std::tuple_size_v<tuple_t>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size = std::tuple_size_v<tuple_t>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From ee64c2e6888d8c4934009c213b0491716475f5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:29 +0000
Subject: [PATCH 086/127] fix: visit reports a std::variant that is valueless
 by exception

---
 include/daw/daw_visit.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 379fb92..fc7d3fe 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -86,6 +86,8 @@ namespace daw {
 		}
 
 	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
+	  DAW_MAKE_REQ_TRAIT( has_valueless_by_exception,
+	                      std::declval<T const &>( ).valueless_by_exception( ) );
 	  
     template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
 	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
@@ -93,8 +95,14 @@ namespace daw {
 		}
 
     template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
+	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & v ) {
+		  if constexpr( has_valueless_by_exception<Variant> ) {
+			  return v.valueless_by_exception( );
+		  } else if constexpr( std::is_signed_v<decltype( v.index( ) )> ) {
+			  return v.index( ) < 0;
+		  } else {
+			  return false;
+		  }
 		}
 	  
 		template<typename>
-- 
2.43.0


From 868fa5025e759c00cd48c7bbf92536068b76f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 087/127] fix: chunk_iterator -= moves back

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..9b4143d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
-- 
2.43.0


From 2baea226fdb05b3d0c98beb8d9688fd7d46c38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 088/127] fix: the distance of chunk_iterators is in chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 9b4143d..73f4644 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -118,7 +118,7 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			return ( m_iterator - rhs.m_iterator ) / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From 82431dd7c9a65d11c50e3619d1c54fb7553abecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 089/127] fix: a circular_iterator moved back by whole turns
 stays inside the container

---
 include/daw/iterator/daw_circular_iterator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..99e8c4b 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -62,9 +62,8 @@ namespace daw {
 			  static_cast<difference_type>( impl::container_size( *m_container ) );
 			n += m_position;
 			if( n < 0 ) {
-				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n < 0 ? n + sz : n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From a2e4c193ae309c8a67da55353d05fd816ee62c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 090/127] fix: integer_range_iterator can be incremented with
 it++

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 9ecd877f7500fc88c9e99d9eae7fe599f98ecec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 091/127] fix: iota_iterator += and -= move by steps

---
 include/daw/iterator/daw_iota_iterator.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..f2b6413 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,14 +50,12 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			*this = *this + n;
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			*this = *this - n;
 			return *this;
 		}
 
-- 
2.43.0


From de735ce6a9c928636791e2de1b1d3825eb87bcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 092/127] fix: iota_iterator of an unsigned type that is before
 another differs from it

---
 include/daw/iterator/daw_iota_iterator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index f2b6413..76ecf1d 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -121,8 +121,7 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			if( std::less<>{ }( m_value, *rhs ) ) {
 				return -1;
 			}
 			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
-- 
2.43.0


From baf968902bfa9ef1480235b6967641ca75aea533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 093/127] fix: indexed_iterator can be moved to the end and has
 negative distances

---
 include/daw/iterator/daw_indexed_iterator.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..92a1286 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -197,8 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From 1b886b32adaa07eeede3f0f03866289d001f4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 094/127] fix: pointer_iterator it++ does not return a
 reference to a local

---
 include/daw/iterator/daw_pointer_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From be765799aafefbb7ccf25dd7492926f00f1f5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:22 +0000
Subject: [PATCH 095/127] fix: checked_iterator_proxy checks increments and
 decrements

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..2c0d319 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -37,14 +37,10 @@ namespace daw {
 
 		constexpr auto get_flag_value( bool CheckIncrement, bool CheckDecrement,
 		                               bool CheckDereference ) const noexcept {
-			auto result =
-			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
-			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
-			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
-
-			return result;
+			unsigned result = CheckIncrement ? check_increment : 0U;
+			result |= CheckDecrement ? check_decrement : 0U;
+			result |= CheckDereference ? check_dereference : 0U;
+			return static_cast<std::uint8_t>( result );
 		}
 
 	public:
-- 
2.43.0


From 70b3f2ebb53f32efcc5b08e1fb82d1907d741eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:22 +0000
Subject: [PATCH 096/127] fix: checked_iterator_proxy it++ moves it and returns
 the old position

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 2c0d319..d51384f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -72,9 +72,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++*this;
 			return result;
 		}
 
@@ -88,9 +88,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--*this;
 			return result;
 		}
 
-- 
2.43.0


From 1528c707beaa748a81afc4c4d9257db3b817f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:22 +0000
Subject: [PATCH 097/127] fix: find_one_iterator starts at the first match

---
 include/daw/iterator/daw_find_one_iterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..433c4f8 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
@@ -124,7 +126,7 @@ namespace daw {
 		}
 	};
 
-	template<typename Iterator, typename IteratorLast, typename Filter>
-	find_one_iterator( Iterator, IteratorLast, Filter )
-	  -> find_one_iterator<Iterator, IteratorLast, Filter>;
+	template<typename Iterator, typename IteratorLast, typename... Filters>
+	find_one_iterator( Iterator, IteratorLast, Filters... )
+	  -> find_one_iterator<Iterator, IteratorLast, Filters...>;
 } // namespace daw
-- 
2.43.0


From de4a7b9054bfbd3dc3fb28730b8e35187f6df45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:51 +0000
Subject: [PATCH 098/127] fix: repeat_n_char_iterator += moves the same way as
 ++

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From 610b484ed01003bf3ff583de7bf3e5df5599f48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:05 +0000
Subject: [PATCH 099/127] fix: natural_t rejects a value that is not positive
 after conversion

---
 include/daw/daw_natural.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..4203eb1 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -28,7 +28,8 @@ namespace daw {
 
 		template<typename Value>
 		static constexpr decltype( auto ) validate( Value &&val ) {
-			daw::exception::precondition_check<invalid_natural_number>( val >= 1 );
+			daw::exception::precondition_check<invalid_natural_number>(
+			  val >= 1 and static_cast<T>( val ) >= 1 );
 
 			return DAW_FWD( val );
 		}
-- 
2.43.0


From 0a1571fd821fefbc6d635c5e13ea0112ec33058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:05 +0000
Subject: [PATCH 100/127] fix: natural_t of an unsigned type reports a
 difference below one

---
 include/daw/daw_natural.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 4203eb1..18cbb09 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -70,7 +70,7 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			*this = *this - rhs;
 			return *this;
 		}
 
@@ -145,6 +145,8 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			// an unsigned difference cannot be less than zero
+			daw::exception::precondition_check<invalid_natural_number>( lhs > rhs );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
-- 
2.43.0


From 957dcc76965ae8698956451aa9102b723566f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:05 +0000
Subject: [PATCH 101/127] fix: natural_t reports a quotient or remainder of
 zero

---
 include/daw/daw_natural.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 18cbb09..ef6f278 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -83,18 +83,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = validate( m_value / static_cast<U>( rhs ) );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = validate( m_value % static_cast<U>( rhs ) );
 			return *this;
 		}
 
@@ -164,24 +164,22 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From 9ab7cc6c9fe409c43e9c50310f18ab72a00084c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 102/127] fix: bounded_vector_t::has_room tells if there is
 room

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..a29bb1d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From f5c36552af147b5f555a524eb0a7f01fc022f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 103/127] fix: bounded_vector_t::pop_front removes from the
 front

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a29bb1d..3593104 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From a4a4da26b6a92de1d7aeae4a44865c99f7d14ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 104/127] fix: bounded_vector_t::resize counts from the first
 element

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3593104..4fa0e5f 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -289,14 +289,14 @@ namespace daw {
 			  count <= capacity( ), "Attempt to resize past capacity of fix_stack" );
 
 			if( count > size( ) ) {
-				if( can_move_front( count ) ) {
+				if( can_move_front( count - size( ) ) ) {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From af8476a589d2a156778c798c004657cea3189862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 105/127] fix: bounded_vector_t::push_back( ) returns the
 position of the element

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 4fa0e5f..078545b 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -221,7 +221,7 @@ namespace daw {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			return m_index++;
+			return m_index++ - m_first;
 		}
 
 		constexpr void push_back( const_pointer ptr, size_type sz ) noexcept {
-- 
2.43.0


From 6cb23bb80909a8f19af9e298bc5679da6ff99bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 106/127] fix: bounded_vector_t::end does not index past the
 storage

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 078545b..f67622e 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -160,15 +160,15 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr iterator end( ) noexcept {
-			return &m_stack[m_index];
+			return m_stack.data( ) + static_cast<difference_type>( m_index );
 		}
 
 		[[nodiscard]] constexpr const_iterator end( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.data( ) + static_cast<difference_type>( m_index );
 		}
 
 		[[nodiscard]] constexpr const_iterator cend( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.data( ) + static_cast<difference_type>( m_index );
 		}
 
 		[[nodiscard]] constexpr reverse_iterator rend( ) noexcept {
-- 
2.43.0


From 34c2e231068061e30c7e7649fdb4ede5635ad2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 107/127] fix: bounded_vector_t::erase returns the element
 after those erased

---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index f67622e..36c4c71 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -325,14 +322,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From 862b41d47cb2bea85875ed1b2c175dbf40c24ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 108/127] fix: bounded_vector_t::swap swaps the elements of
 both

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 36c4c71..e9a9635 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -338,8 +338,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From e07b4faaa471502fc17aec2bc7a058164dbd4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:37 +0000
Subject: [PATCH 109/127] fix: ring_adaptor::emplace_back adds at the back

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..113ab41 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,8 +96,8 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
+			++m_tail;
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
 			return m_queue[idx];
 		}
-- 
2.43.0


From 3ec7cb450bc1e1daea350901f595c4912539ddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:01 +0000
Subject: [PATCH 110/127] fix: simple_array can be iterated when it is const

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0


From 7750bf5beecd3f9755bb8c25a28fe323a38bc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 111/127] fix: map_iterator + and - move the result

---
 include/daw/pipelines/map.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..b638a05 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,12 +139,13 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const
+		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From ac17b7e43aa1d5f9428e292f6af481031c5ef161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 112/127] fix: map_iterator applies the projection

---
 include/daw/pipelines/map.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index b638a05..6bb58b1 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,25 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
-- 
2.43.0


From 66952c752bde6f72a48c6c2310d034186b5fa61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 113/127] fix: the end of Take is after the elements taken, for
 any count

---
 include/daw/pipelines/take.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..68310a3 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -33,11 +33,12 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
-				return range_t{ sized_iterator<iter_t>{
-				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				auto const take_size =
+				  (std::min)( static_cast<std::size_t>( range_size ), how_many );
+				auto const take_last =
+				  std::next( first, static_cast<std::ptrdiff_t>( take_size ) );
+				return range_t{ sized_iterator<iter_t>{ first, take_size },
+				                sized_iterator<iter_t>{ take_last, 0 } };
 			} else {
 				return range_t{ sized_iterator<iter_t>{ first, how_many },
 				                sized_iterator<iter_t>{ last, 0 } };
-- 
2.43.0


From 16343ed6f49731e58b099120446a6bdc12e4d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 114/127] fix: Skip of more than the largest difference skips
 everything

---
 include/daw/pipelines/skip.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..d49f3cd 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -29,8 +29,8 @@ namespace daw::pipelines::pimpl {
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
 				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
-				first = std::next( first, skip );
+				  (std::min)( how_many, static_cast<std::size_t>( range_size ) );
+				first = std::next( first, static_cast<std::ptrdiff_t>( skip ) );
 			} else {
 				// Input
 				for( auto n = how_many; n > 0; --n ) {
-- 
2.43.0


From 87f6cb4e2fc846dd2758916c0103c3f66ddd9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 115/127] fix: TakeWhile takes the elements before the first
 that does not match

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 68310a3..ae8bf51 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -53,13 +53,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From 76178257a9559d2d4850ed9c555536ea2fe2d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 116/127] fix: iota_iterator [] does not dereference the value

---
 include/daw/pipelines/iota.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..8b78c0f 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From c07f977f3d8d2ef795459678d5d585374a634a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 117/127] fix: the last chunk ends at the end of the range

---
 include/daw/pipelines/chunk.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..fab2bf5 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -106,11 +106,15 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			auto last = *this;
+			last.increment( );
+			return range_t<iterator>{ m_iter, last.m_iter };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			auto last = *this;
+			last.increment( );
+			return range_t<iterator>{ m_iter, last.m_iter };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 152c6cb62dc7b7257c718194f58c7054a95574bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:24 +0000
Subject: [PATCH 118/127] fix: Unique accepts an lvalue range

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..81391bb 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -98,7 +98,7 @@ namespace daw::pipelines {
 		}
 	};
 	template<typename I>
-	unique_view( I ) -> unique_view<I>;
+	unique_view( I, I ) -> unique_view<I>;
 
 	template<Range R>
 	struct unique_range {
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From 0cc926689396a4daa9710b1ff8a0b752641d96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 119/127] fix: Slide of a range shorter than the window is
 empty

---
 include/daw/pipelines/slide.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..372c685 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -64,7 +64,17 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			auto it = m_iter;
+			for( std::size_t n = 0; n < slide_size; ++n ) {
+				if( it == ra_end( ) ) {
+					// no window fits
+					m_iter = it;
+					break;
+				}
+				++it;
+			}
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 369996ae87701c85d9e530cb8b6912747b66d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 120/127] fix: the distance of zip_iterators is that of the
 shortest range

---
 include/daw/pipelines/zip.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..1b0fc38 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -198,7 +198,21 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// the ranges may differ in length, the shortest distance is the one that
+			// can be walked
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				auto result = static_cast<difference_type>(
+				  std::get<0>( m_iters ) - std::get<0>( rhs.m_iters ) );
+				auto const closer = [&]( difference_type d ) {
+					if( ( d < 0 ? -d : d ) < ( result < 0 ? -result : result ) ) {
+						result = d;
+					}
+				};
+				(void)( ( closer( static_cast<difference_type>(
+				            std::get<Is>( m_iters ) - std::get<Is>( rhs.m_iters ) ) ),
+				          ... ) );
+				return result;
+			}( zip_indices( ) );
 		}
 
 		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
-- 
2.43.0


From e9e39492ac4a45029d3df29139423f497235e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:24 +0000
Subject: [PATCH 121/127] fix: Enumerate of a sized range has the distance of
 the range

---
 include/daw/pipelines/enumerate.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..9409bdc 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -23,8 +23,13 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
+			auto last = max_value<EnumType>;
+			if constexpr( RandomRange<R> ) {
+				last = static_cast<EnumType>(
+				  std::distance( std::begin( r ), std::end( r ) ) );
+			}
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( 0, last ), DAW_FWD( r ) );
 		}
 	};
 
@@ -33,8 +38,14 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
+			auto last = max_value<EnumType>;
+			if constexpr( RandomRange<R> ) {
+				last = static_cast<EnumType>(
+				  offset + static_cast<EnumType>(
+				             std::distance( std::begin( r ), std::end( r ) ) ) );
+			}
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( offset, last ), DAW_FWD( r ) );
 		}
 	};
 
-- 
2.43.0


From cf53bcb9bc369dae97211979fcd5282036d3f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 122/127] fix: hash_set_t::erase removes only the key and keeps
 the others reachable

---
 include/daw/daw_hash_set.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..5fe8f0e 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -72,10 +72,22 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			m_indices[*index] = std::nullopt;
+			// Keys that follow may have been placed further along because of the one
+			// that is gone
+			std::size_t pos = *index;
+			for( std::size_t n = 1; n < m_indices.size( ); ++n ) {
+				pos = pos + 1 == m_indices.size( ) ? 0 : pos + 1;
+				if( not m_indices[pos] ) {
+					break;
+				}
+				auto moved = std::move( m_indices[pos] );
+				m_indices[pos] = std::nullopt;
+				m_indices[*find_index( Hash{ }( *moved ), *moved )] = std::move( moved );
+			}
 			return index;
 		}
 
-- 
2.43.0


From d10290183790233c33a2fa55b8ca076b423059bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 123/127] fix: an empty static_hash_t can be constructed

---
 include/daw/static_hash_table.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..b0c57b3 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -108,9 +108,7 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
-- 
2.43.0


From f7bd2c3d7aa7701c4b49e1f1dc14068da11ef8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:27 +0000
Subject: [PATCH 124/127] fix: a const static_hash_t can be read

---
 include/daw/static_hash_table.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index b0c57b3..0e92e08 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -156,7 +156,6 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
 			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
-- 
2.43.0


From ef0aefc48a8ed6cc607821a532f04cab51af746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:18 +0000
Subject: [PATCH 125/127] fix: static_hash_t does not use a slot past its
 storage when it is full

---
 include/daw/static_hash_table.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 0e92e08..842d24a 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -11,10 +11,14 @@
 #include "daw/ciso646.h"
 #include "daw/daw_algorithm.h"
 #include "daw/daw_arith_traits.h"
+#include "daw/daw_exception.h"
 #include "daw/daw_fnv1a_hash.h"
 #include "daw/daw_remove_cvref.h"
 
+#include <initializer_list>
 #include <limits>
+#include <stdexcept>
+#include <utility>
 
 namespace daw {
 	template<typename T, std::size_t Capacity>
@@ -106,6 +110,14 @@ namespace daw {
 			return Capacity;
 		}
 
+		[[nodiscard]] constexpr std::size_t find_or_throw( std::uint64_t hash ) const {
+			auto const pos = find_impl( hash );
+			if( pos == Capacity ) {
+				DAW_THROW_OR_TERMINATE( std::out_of_range, "Hash table is full" );
+			}
+			return pos;
+		}
+
 	public:
 		constexpr static_hash_t( )
 		  : m_values{ } {}
@@ -114,7 +126,7 @@ namespace daw {
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_or_throw( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = item.second;
 			}
@@ -125,7 +137,7 @@ namespace daw {
 		  std::initializer_list<std::pair<K, value_type>> items ) {
 			for( auto const &item : items ) {
 				auto const hash = hash_fn( item.first );
-				auto const pos = find_impl( hash );
+				auto const pos = find_or_throw( hash );
 				m_values[pos].hash_value = hash;
 				m_values[pos].value = std::move( item.second );
 			}
@@ -140,14 +152,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr reference operator[]( K const &key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr reference operator[]( char const *const key ) {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
@@ -155,14 +167,14 @@ namespace daw {
 		template<typename K>
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			return m_values[pos].value;
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( char const *const key ) const {
 			auto hash = hash_fn( key );
-			auto const pos = find_impl( hash );
+			auto const pos = find_or_throw( hash );
 			return m_values[pos].value;
 		}
 	}; // static_hash_t
-- 
2.43.0


From 88e691abfe2132e8b1b466d2022824c45488fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:38 +0000
Subject: [PATCH 126/127] fix: hash_set_t::size counts the keys

---
 include/daw/daw_hash_set.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 5fe8f0e..257f802 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -111,8 +111,9 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t count, auto const &opt ) {
+				                                   return count +
+				                                          ( opt.has_value( ) ? 1U : 0U );
 			                                   } );
 		}
 	};
-- 
2.43.0


From e13fe16ab1722fbfd3fda5bb18ac71f96ff30482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:20 +0000
Subject: [PATCH 127/127] fix: static_hash_t includes the header of the macro
 it throws with

---
 include/daw/static_hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 842d24a..e09bb2e 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -11,7 +11,7 @@
 #include "daw/ciso646.h"
 #include "daw/daw_algorithm.h"
 #include "daw/daw_arith_traits.h"
-#include "daw/daw_exception.h"
+#include "daw/daw_check_exceptions.h"
 #include "daw/daw_fnv1a_hash.h"
 #include "daw/daw_remove_cvref.h"
 
-- 
2.43.0

