From 73144e40ad2291e812b3f07c22665b7cc477909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:43 +0000
Subject: [PATCH 01/27] fix: RemoveRange rejects a negative count instead of
 growing the list

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..d46f7c2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -522,7 +522,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From a073921e7014b858f8c47b0c95fce52be366198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:27 +0000
Subject: [PATCH 02/27] fix: inserting an element of the same list no longer
 reads it after it was moved away

---
 Source/Collections/List.h | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d46f7c2..20b1ac2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -177,6 +177,12 @@ Memory Management
 				count = newCount;
 			}
 
+			template<typename T>
+			bool IsItemInBuffer(const T* items, vint count, const T* item)
+			{
+				return items <= item && item < items + count;
+			}
+
 			template<typename TItem, typename TArg, bool = std::is_same_v<std::remove_cvref_t<TArg>, std::remove_cvref_t<TItem>>>
 			struct Accept_;
 
@@ -605,6 +611,12 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (memory_management::IsItemInBuffer(this->buffer, this->count, &item))
+				{
+					// inserting is going to move the item away before it is read
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -617,6 +629,12 @@ List
 			vint Insert(vint index, T&& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (memory_management::IsItemInBuffer(this->buffer, this->count, &item))
+				{
+					// inserting is going to move the item away before it is read
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -729,6 +747,12 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				if (memory_management::IsItemInBuffer(this->buffer, this->count, &item))
+				{
+					// inserting is going to move the item away before it is read
+					T copied(item);
+					return Insert(index, std::move(copied));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -737,6 +761,12 @@ SortedList
 			vint Insert(vint index, T&& item)
 			{
 				bool uninitialized = false;
+				if (memory_management::IsItemInBuffer(this->buffer, this->count, &item))
+				{
+					// inserting is going to move the item away before it is read
+					T moved(std::move(item));
+					return Insert(index, std::move(moved));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallMoveCtors(&this->buffer[index], &item, 1);
 				return index;
-- 
2.43.0


From d0c105a141b53ce9975a2cadbb35881de94d5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:57 +0000
Subject: [PATCH 03/27] fix: assigning to a shared pointer from a pointer
 inside the released object

---
 Source/Primitives/Pointer.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..3738dcb 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -242,7 +242,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be a part of the object to release
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -259,7 +260,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be a part of the object to release
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -426,7 +428,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be a part of the object to release
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -438,7 +441,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be a part of the object to release
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From 57fbb97e57501e98d29122a693d46986e05c33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:16 +0000
Subject: [PATCH 04/27] fix: Ptr::Detach leaves the pointer empty when other
 owners remain

---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 3738dcb..6862d86 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From 7b4592a73a7ba879c31470372925a41f1b37dcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:39 +0000
Subject: [PATCH 05/27] fix: the copy constructor of SortedList copies instead
 of emptying the source

---
 Source/Collections/List.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 20b1ac2..fc5c49f 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -808,9 +808,12 @@ SortedList
 			SortedList(SortedList<T>&& container) : ListBase<T>(std::move(container)) {}
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
-			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
+			SortedList(const SortedList<T>& xs)
 			{
+				this->buffer = memory_management::AllocateBuffer<T>(xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
+				this->count = xs.count;
+				this->capacity = xs.count;
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From a982afaf1cd4b9a5f4b8e7f815037acd6fa3ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:40 +0000
Subject: [PATCH 06/27] fix: Group::Remove(key, value) reports whether the
 value was there

---
 Source/Collections/Dictionary.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..d0a6fd8 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -578,14 +578,14 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					bool removed=target->Remove(value);
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
 						values.RemoveAt(index);
 						delete target;
 					}
-					return true;
+					return removed;
 				}
 				else
 				{
-- 
2.43.0


From f2c8c8716b0a275ccbe3dc1eacaab6e7f4b1992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:48 +0000
Subject: [PATCH 07/27] fix: assigning the value of a Nullable to itself no
 longer copies a destroyed object

---
 Source/Primitives/Nullable.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..b81f1cf 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,8 +105,10 @@ namespace vl
 				}
 			}
 
+			// value could be (inside) the contained object
+			T copied(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(copied));
 			initialized = true;
 			return *this;
 		}
-- 
2.43.0


From 6c1467a733a6f5c6f56b5863c8226e23aa3ca5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:51 +0000
Subject: [PATCH 08/27] fix: assigning to a Variant from inside the element it
 holds

---
 Source/Primitives/Variant.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..863cffc 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -349,9 +349,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be inside the element to destroy
+					Variant<TElements...> source(variant);
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					index = source.index;
+					ElementPack::MoveCtor(index, buffer, source.buffer);
 				}
 			}
 			return *this;
@@ -367,9 +369,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be inside the element to destroy
+					Variant<TElements...> source(std::move(variant));
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					index = source.index;
+					ElementPack::MoveCtor(index, buffer, source.buffer);
 				}
 			}
 			return *this;
@@ -386,9 +390,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be inside the element to destroy
+				T source(element);
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(source));
 			}
 			return *this;
 		}
@@ -404,9 +410,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be inside the element to destroy
+				T source(std::move(element));
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(source));
 			}
 			return *this;
 		}
@@ -420,9 +428,11 @@ namespace vl
 			}
 			else
 			{
+				// value could be inside the element to destroy
+				TypeTupleElement<I, TypeTuple<TElements...>> source(std::forward<T&&>(value));
 				ElementPack::Dtor(index, buffer);
 				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				ElementPack::Ctor(i, buffer, std::move(source));
 			}
 			return *this;
 		}
-- 
2.43.0


From 2cc78ae5d9ebc14c35b3e1a887a772e324f5edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:33 +0000
Subject: [PATCH 09/27] fix: callbacks of an event could be skipped or
 destroyed while running when callbacks change the event

---
 Source/Primitives/Event.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..c699811 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -96,9 +96,14 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
-			for(vint i = 0; i < handlers.Count(); i++)
+			// callbacks could add or remove callbacks, including themselves
+			collections::SortedList<Ptr<EventHandlerImpl>> invoking(handlers);
+			for(vint i = 0; i < invoking.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				if (invoking[i]->attached)
+				{
+					invoking[i]->function(std::forward<TArgs2&&>(args)...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From 33269bb14d6ee8353c297123a1c6313740d23a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:57 +0000
Subject: [PATCH 10/27] fix: raising an event with temporary arguments gave
 moved-away values to all but the first callback

---
 Source/Primitives/Event.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index c699811..136e71e 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -102,7 +102,15 @@ namespace vl
 			{
 				if (invoking[i]->attached)
 				{
-					invoking[i]->function(std::forward<TArgs2&&>(args)...);
+					if constexpr (std::is_invocable_v<const Func<void(TArgs...)>&, TArgs2&...>)
+					{
+						// every callback receives the arguments, none of them takes the arguments away from others
+						invoking[i]->function(args...);
+					}
+					else
+					{
+						invoking[i]->function(std::forward<TArgs2&&>(args)...);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 1c4e86585bd518f2b7af980185f188bc74a18243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:11 +0000
Subject: [PATCH 11/27] fix: moving a Func by assignment left the source
 non-empty

---
 Source/Primitives/Function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Function.h b/Source/Primitives/Function.h
index ca9a677..624a56b 100644
--- a/Source/Primitives/Function.h
+++ b/Source/Primitives/Function.h
@@ -228,7 +228,7 @@ vl::Func<R(TArgs...)>
 			return *this;
 		}
 
-		Func<R(TArgs...)>& operator=(const Func<R(TArgs...)>&& function)
+		Func<R(TArgs...)>& operator=(Func<R(TArgs...)>&& function)
 		{
 			invoker = std::move(function.invoker);
 			return *this;
-- 
2.43.0


From 5e6db688c8a4ea35c4e39d4edf7f5fbcc58eb77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:24 +0000
Subject: [PATCH 12/27] fix: Dictionary and Group enumerators keep their
 position when cloned and can be reset

---
 Source/Collections/Dictionary.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index d0a6fd8..52d0848 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(index>=0 && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -288,10 +289,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (keyIndex >= 0 && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (valueIndex >= 0 && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -303,6 +304,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From 3c8202b64e1a2baa04c3698acfa580ae0763a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:25 +0000
Subject: [PATCH 13/27] fix: a Skip enumerator reports position -1 before its
 first step, so Take(0) after it is empty

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..9ebc4ae 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped ? enumerator->Index()-count : -1;
 			}
 
 			bool Next()override
-- 
2.43.0


From b0a17346c08a978f03dfe6aa08b40fa430a6a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:28 +0000
Subject: [PATCH 14/27] fix: string Sub and Remove raise an error on a negative
 count

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 894c5ee4bd32d41583e4d3862503973db1895bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:06 +0000
Subject: [PATCH 15/27] fix: reject ill-formed UTF-8 when decoding

The UTF-8 reader did not check continuation bytes and accepted overlong
sequences and encoded surrogates, so ill-formed text turned into characters.
---
 Source/Strings/Conversion.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..18fe145 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -120,6 +120,7 @@ UtfConversion<char8_t>
 			const vuint8_t* cs = reinterpret_cast<const vuint8_t*>(source);
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
+			vint length = 0;
 
 			if (cs[0] < 0b10000000U)
 			{
@@ -131,7 +132,7 @@ UtfConversion<char8_t>
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				length = 2;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +140,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				length = 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +149,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				length = 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,7 +159,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				length = 5;
 			}
 			else
 			{
@@ -169,10 +170,17 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				length = 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
+
+			// reject everything that is not the encoding of the decoded value
+			char8_t encoded[BufferLength];
+			if (From32(dest, encoded) != length) return -1;
+			for (vint i = 0; i < length; i++)
+			{
+				if (encoded[i] != source[i]) return -1;
+			}
+			return length;
 		}
 
 /***********************************************************************
-- 
2.43.0


From e539b540e5c8a60c51ca1c29698edb7d90d8c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:08 +0000
Subject: [PATCH 16/27] fix: keep wide characters intact in wlower and wupper

The helpers for platforms without _wcslwr_s and _wcsupr_s cut every character
to a char.
---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From 6432a7cd643a752a09fc0cafb3a433079310a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:48 +0000
Subject: [PATCH 17/27] fix: UTC times are right while summer time is in effect

gmtime says that summer time is not in effect, and mktime then moves the fields
by the difference. UtcTime and ToUtcTime were an hour off in summer, and
ToLocalTime used the offset of another instant.
---
 Source/Primitives/DateTime.Linux.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..ef660ed 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1; // UTC fields are kept as they are even if they are in the daylight saving time
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1; // UTC fields are kept as they are even if they are in the daylight saving time
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -117,10 +119,7 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
-			timer += localTimer - utcTimer;
-
+			timer = timegm(localtime(&timer));
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
 		}
-- 
2.43.0


From 645513a9da7c789181a064aebe823f38927c2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:49 +0000
Subject: [PATCH 18/27] fix: times before 1970 order and move correctly in
 Linux

A time before 1970 is a negative count of milliseconds, which was treated as a
huge unsigned number by comparison, FromOSInternal, Forward and Backward.
---
 Source/Primitives/DateTime.Linux.cpp | 6 ++++--
 Source/Primitives/DateTime.h         | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index ef660ed..a4fa671 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -30,8 +30,10 @@ DateTime
 
 		static void OSInternalToTime(vuint64_t osInternal, time_t& timer, vint& milliseconds)
 		{
-			timer = (time_t)(osInternal / 1000);
-			milliseconds = (vint)(osInternal % 1000);
+			// a time before 1970 is a negative number of milliseconds
+			vint64_t total = (vint64_t)osInternal;
+			milliseconds = (vint)((total % 1000 + 1000) % 1000);
+			timer = (time_t)((total - milliseconds) / 1000);
 		}
 
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
diff --git a/Source/Primitives/DateTime.h b/Source/Primitives/DateTime.h
index 05266b7..d15b516 100644
--- a/Source/Primitives/DateTime.h
+++ b/Source/Primitives/DateTime.h
@@ -92,7 +92,8 @@ Date and Time
 
 		std::strong_ordering operator<=>(const DateTime& value) const
 		{
-			return osInternal <=> value.osInternal;
+			// in Linux and macOS, a time before 1970 is a negative number
+			return (vint64_t)osInternal <=> (vint64_t)value.osInternal;
 		}
 
 		bool operator==(const DateTime& value) const
-- 
2.43.0


From 589d2dd43c1a607c0c05a5fa5812536867041c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:07 +0000
Subject: [PATCH 19/27] fix: CopyFrom from a container to itself

Replacing emptied the container, and appending to a sorted list or a group read
elements that had just been added, without end for a group.
---
 Source/Collections/OperationCopyFrom.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/OperationCopyFrom.h b/Source/Collections/OperationCopyFrom.h
index ca63317..d910aa6 100644
--- a/Source/Collections/OperationCopyFrom.h
+++ b/Source/Collections/OperationCopyFrom.h
@@ -143,7 +143,22 @@ Copy Functions for Containers
 		template<typename Ds, typename Ss>
 		void CopyFrom(Ds& ds, const Ss& ss, bool append = false)
 		{
-			copyfrom_internal::CopyFromAlgorithm<Ds, Ss, randomaccess_internal::RandomAccessable<Ds>::CanResize, randomaccess_internal::RandomAccessable<Ss>::CanRead>::Perform(ds, ss, append);
+			using Algorithm = copyfrom_internal::CopyFromAlgorithm<Ds, Ss, randomaccess_internal::RandomAccessable<Ds>::CanResize, randomaccess_internal::RandomAccessable<Ss>::CanRead>;
+			if constexpr (std::is_same_v<Ds, Ss>)
+			{
+				if (&ds == &ss)
+				{
+					// the source must not be modified while it is being copied
+					if (append)
+					{
+						Ds copied;
+						Algorithm::Perform(copied, ss, false);
+						Algorithm::Perform(ds, copied, true);
+					}
+					return;
+				}
+			}
+			Algorithm::Perform(ds, ss, append);
 		}
 		
 		/// <summary>Copy containers.</summary>
-- 
2.43.0


From c8efb48b8bf96cfd38ac1da03cb4f412d636c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:15 +0000
Subject: [PATCH 20/27] fix: an alternative of Variant with a large alignment
 was constructed at a misaligned address

---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 863cffc..e663132 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -275,7 +275,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char		buffer[MaxSize];
 
 	public:
 		Variant()
-- 
2.43.0


From 8a546bfece7ee9078c38270b3cf65d481742d762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:17 +0000
Subject: [PATCH 21/27] fix: atof_test and wtof_test reported success for an
 empty string

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From 5a90cebcd21a9287468bc6b7e82e20e163a4c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:49 +0000
Subject: [PATCH 22/27] fix: Console::Write on Linux appended a null character
 to everything it wrote

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index d7e51dc..18ea539 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -23,7 +23,7 @@ Console
 		void Console::Write(const wchar_t* string, vint length)
 		{
 			std::wstring s(string, string + length);
-			std::wcout << s << std::ends;
+			std::wcout << s;
 		}
 
 		WString Console::Read()
-- 
2.43.0


From 9f2007daf126b93361985924de4d9f8c56517440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:50 +0000
Subject: [PATCH 23/27] fix: LoremIpsumParagraph could end with a comma instead
 of a period

---
 Source/Strings/LoremIpsum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..6bf08de 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 3 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From 59106b6aba13564738a5feaae55b6e510c98ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:04 +0000
Subject: [PATCH 24/27] fix: clearing a pointer that the released object owns
 or accesses

---
 Source/Primitives/Pointer.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 6862d86..44519e0 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -231,8 +231,8 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			// the object to release could own or access this pointer
+			Ptr<T> released(std::move(*this));
 			return *this;
 		}
 
@@ -405,23 +405,20 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			// the object to release could own or access this pointer
+			ComPtr<T> released(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
+			// the object to release could own or access this pointer
+			ComPtr<T> released(std::move(*this));
 			if (pointer)
 			{
 				counter = new atomic_vint(1);
 				reference = pointer;
 			}
-			else
-			{
-				SetEmpty();
-			}
 			return *this;
 		}
 
-- 
2.43.0


From e41efe72076c0942d33622d450eabaa2bf853ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:47 +0000
Subject: [PATCH 25/27] fix: assigning to a Nullable from inside the value it
 holds

---
 Source/Primitives/Nullable.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index b81f1cf..c76c9c6 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -127,8 +127,10 @@ namespace vl
 				}
 			}
 
+			// value could be (inside) the contained object
+			T moved(std::move(value));
 			Reset();
-			new (&object)T(std::move(value));
+			new (&object)T(std::move(moved));
 			initialized = true;
 			return *this;
 		}
@@ -153,8 +155,10 @@ namespace vl
 					}
 				}
 
+				// nullable could be inside the contained object
+				T copied(nullable.object);
 				Reset();
-				new (&object)T(nullable.object);
+				new (&object)T(std::move(copied));
 				initialized = true;
 			}
 			return *this;
@@ -171,20 +175,10 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_move_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = std::move(nullable.object);
-						nullable.Reset();
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(std::move(nullable.object));
+				// nullable could be inside the contained object
+				T moved(std::move(nullable.object));
 				nullable.Reset();
-				initialized = true;
+				return *this = std::move(moved);
 			}
 			return *this;
 		}
-- 
2.43.0


From b59cf38bca57ed6e842a873d42b69a090cb3978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:52 +0000
Subject: [PATCH 26/27] fix: moving a container to the container that owns it
 through its elements

---
 Source/Collections/Dictionary.h |  6 ++++--
 Source/Collections/List.h       | 26 ++++++++++++++++----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 52d0848..19c4b9b 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -414,9 +414,11 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// _move could be inside one of the values to release
+				Group<KT, VT> moved(std::move(_move));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(moved.keys);
+				values = std::move(moved.values);
 				return*this;
 			}
 
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fc5c49f..574ad3c 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -363,15 +363,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be inside one of the items to release
+				auto oldBuffer = this->buffer;
+				auto oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -493,17 +496,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be inside one of the items to release
+				auto oldBuffer = this->buffer;
+				auto oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From 1d111a2f9f6936b9e0dc6f4caca004961720e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:56 +0000
Subject: [PATCH 27/27] fix: moving a LazyList to the LazyList that owns it
 through its functions

---
 Source/Collections/Operation.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Collections/Operation.h b/Source/Collections/Operation.h
index 83e990b..b5c5c2e 100644
--- a/Source/Collections/Operation.h
+++ b/Source/Collections/Operation.h
@@ -301,8 +301,7 @@ LazyList
 
 			LazyList<T>& operator=(LazyList<T>&& lazyList)
 			{
-				enumeratorPrototype = lazyList.enumeratorPrototype;
-				lazyList.enumeratorPrototype = nullptr;
+				enumeratorPrototype = std::move(lazyList.enumeratorPrototype);
 				return *this;
 			}
 
-- 
2.43.0

