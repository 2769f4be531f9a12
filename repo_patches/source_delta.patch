From f4296ac96d5ee7c745437a33466ff094ae434b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 01/63] fix: stop and join the started workers when a
 ThreadPool cannot be created

If a thread or memory was refused while the workers were being started, the
already running, joinable threads were destroyed, which terminates the process.
---
 include/nuSQuIDS/ThreadPool.h | 52 +++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/ThreadPool.h b/include/nuSQuIDS/ThreadPool.h
index 91e6477..0ef2d55 100644
--- a/include/nuSQuIDS/ThreadPool.h
+++ b/include/nuSQuIDS/ThreadPool.h
@@ -59,28 +59,44 @@ private:
 inline ThreadPool::ThreadPool(size_t threads)
     :   stop(false)
 {
-    for(size_t i = 0;i<threads;++i)
-        workers.emplace_back(
-            [this]
-            {
-                for(;;)
+    try
+    {
+        for(size_t i = 0;i<threads;++i)
+            workers.emplace_back(
+                [this]
                 {
-                    std::function<void()> task;
-
+                    for(;;)
                     {
-                        std::unique_lock<std::mutex> lock(this->queue_mutex);
-                        this->condition.wait(lock,
-                            [this]{ return this->stop || !this->tasks.empty(); });
-                        if(this->stop && this->tasks.empty())
-                            return;
-                        task = std::move(this->tasks.front());
-                        this->tasks.pop();
+                        std::function<void()> task;
+
+                        {
+                            std::unique_lock<std::mutex> lock(this->queue_mutex);
+                            this->condition.wait(lock,
+                                [this]{ return this->stop || !this->tasks.empty(); });
+                            if(this->stop && this->tasks.empty())
+                                return;
+                            task = std::move(this->tasks.front());
+                            this->tasks.pop();
+                        }
+
+                        task();
                     }
-
-                    task();
                 }
-            }
-        );
+            );
+    }
+    catch(...)
+    {
+        // a thread (or memory) was refused: stop the workers started so far,
+        // since destroying a joinable thread would terminate the process
+        {
+            std::unique_lock<std::mutex> lock(queue_mutex);
+            stop = true;
+        }
+        condition.notify_all();
+        for(std::thread &worker: workers)
+            worker.join();
+        throw;
+    }
 }
 
 // add new work item to the pool
-- 
2.43.0


From 3eab412d32b7d06c8ef5b4dd4bce1d345b28ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 02/63] fix: release the buffer when a nested initializer has
 the wrong shape

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..df1691b 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -729,11 +729,11 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
+			
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
-- 
2.43.0


From 93c23a791928a866c97832dd02a0996fa41d03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 03/63] fix: construct the elements of an marray initialized
 from a range and release the buffer when the range does not fit

---
 include/nuSQuIDS/marray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index df1691b..9c6a0b1 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -759,13 +759,13 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
+			
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From 34c7d603f764b1cc3d62925a176a060422daf310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 04/63] fix: return the new buffer with its own size and
 allocator when an marray assignment fails

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 9c6a0b1..dcc8fea 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -486,7 +486,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -499,7 +499,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -526,7 +526,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From 13f4d64666446aec7901ffe12b48060f1818f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 05/63] fix: keep the exchanged buffer with its own allocator
 when move assigning marrays

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index dcc8fea..e4cbae3 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -512,7 +512,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From 597cb200903c90e5b50477ba2765a93d13bd589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 06/63] fix: return the last element from marray::back() const

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index e4cbae3..a9a427e 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From 1c22eaa7c51699d9a3069322a672639aeaefa7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 07/63] fix: do not invert quotients with an marray as the
 divisor

---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index a9a427e..21c1181 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> r(a);
+	for(auto& i : r) i=f/i;
+	return(r);
 }
 
 namespace detail{
-- 
2.43.0


From 5c2aa668f9b2eb58b1d6db4b52d0e257feebcf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:01 +0000
Subject: [PATCH 08/63] fix: make marray::swap usable

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 21c1181..cc64ab2 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -914,13 +914,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From 47237c2db8490111988c076646b44b4a8c7823fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 09/63] fix: do not destroy an element which failed to be
 constructed from a nested initializer

---
 include/nuSQuIDS/marray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index cc64ab2..2351b07 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -349,8 +349,10 @@ struct multidimensional_initializer{
 template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
-		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		for(const auto& i : init){
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++; //only count the element once it exists
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
-- 
2.43.0


From db2fa085145fb3a1274a4b06b1edf7461dab5fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 10/63] fix: support the alignments of 256 bytes and more which
 aligned_allocator accepts

---
 include/nuSQuIDS/aligned_alloc.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..5778c71 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(size_type))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,34 +112,35 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(size_type); //include space to do our thing
 		
 		//try to get memory
-		void* ptr=new char[needed];
+		char* raw=new char[needed];
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
 		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align then preserves this alignment, and starting sizeof(size_type) bytes
+		//into the block ensures that there is space for the offset before ptr.
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		char* ptr=reinterpret_cast<char*>((reinterpret_cast<size_type>(raw+sizeof(size_type)) & ~(alignment-1))+alignment);
+		//Stash the offset in our guaranteed padding where we can find it later
+		size_type offset=ptr-raw;
+		std::memcpy(ptr-sizeof(offset),&offset,sizeof(offset));
 		
-		return(pointer(ptr));
+		return(reinterpret_cast<pointer>(ptr));
 	}
 	
 	void deallocate(pointer p, size_type n){
 		if(!p) //ignore NULL pointers
 			return;
 		
-		uint8_t* ptr=(uint8_t*)p;
+		char* ptr=(char*)p;
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		size_type offset;
+		std::memcpy(&offset,ptr-sizeof(offset),sizeof(offset));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From eaba44f8aad1e1763afc22e2093eeb847e0045fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 11/63] fix: report a failure to write a table in quickwrite

---
 src/tools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..e5393b3 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -99,6 +99,9 @@ int quickwrite(std::string filepath, const marray<double,2>& tbl){
       }
       outfile << std::endl;
     }
+    outfile.close();
+    if(!outfile)
+        throw std::runtime_error("Error: file could not be written: " + filepath);
     return 0;
 }
 
-- 
2.43.0


From 7a16cce48bf7696ea84dc8f9d1c37bb097b5989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 12/63] fix: report a failure to read a table in quickread

---
 src/tools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index e5393b3..e25610b 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -60,6 +60,8 @@ marray<double,2> quickread(std::string filepath){
         while(linestream >> data){
             row.push_back(data);
         }
+        if(linestream.bad())
+            throw std::runtime_error("Error: file could not be read: " + filepath);
         if (!row.empty()){
             #ifdef quickread_DEBUG
             y = row.size();
@@ -71,6 +73,8 @@ marray<double,2> quickread(std::string filepath){
 
         column_number = row.size();
     }
+    if(infile.bad())
+        throw std::runtime_error("Error: file could not be read: " + filepath);
 
     marray<double,2> otable {table.size(),column_number};
     for (unsigned int i = 0; i < table.size(); i++)
-- 
2.43.0


From 7a889f40e4d6ef9e17140f9fad9a73f951066f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 13/63] fix: do not take the number of columns from blank lines
 in quickread

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index e25610b..c052089 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -69,9 +69,8 @@ marray<double,2> quickread(std::string filepath){
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
             table.push_back(row);
+            column_number = row.size();
         }
-
-        column_number = row.size();
     }
     if(infile.bad())
         throw std::runtime_error("Error: file could not be read: " + filepath);
-- 
2.43.0


From 593dbaa5a8cba0f3a2df29832c9fe014eddc8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 14/63] fix: only close HDF5 files which H5File owns

---
 include/nuSQuIDS/tools.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..9f799ef 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -258,10 +258,13 @@ struct H5File{
     hid_t id;
     H5File(hid_t id):id(id){}
     H5File(const H5File&)=delete;
-    H5File(H5File&& h):id(h.id){ h.id=0; }
+    H5File(H5File&& h):id(h.id){ h.id=-1; }
     H5File& operator=(const H5File&)=delete;
     H5File& operator=(H5File&& h){ std::swap(id,h.id); return *this;}
-    ~H5File(){ H5Fclose(id); }
+    ~H5File(){
+        if(id>=0)
+            H5Fclose(id);
+    }
     operator hid_t() const{ return(id); }
 };
 
-- 
2.43.0


From 04af73cc5b8ba267d1804c220e6de849b2d3ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 15/63] fix: report every failure to store an array in an HDF5
 file

---
 include/nuSQuIDS/tools.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 9f799ef..7d86c3f 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -303,6 +303,15 @@ struct H5Handle{
     }
     hid_t get() const{ return id; }
     operator hid_t() const{ return id; }
+    ///\brief Dispose of the owned reference immediately
+    ///\return a negative value on failure
+    herr_t close(){
+        if(id<0)
+            return 0;
+        hid_t old_id=id;
+        id=-1;
+        return (*deleter)(old_id);
+    }
 private:
     hid_t id;
     herr_t(*deleter)(hid_t);
@@ -324,11 +333,13 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     hid_t destType=h5Datatype<DestType>::type();
     std::array<hsize_t,Rank> extents;
     std::copy_n(data.get_extents().begin(),Rank,extents.begin());
-    hid_t dSpace=H5Screate_simple(Rank, &extents[0], nullptr);
+    H5Handle dSpace(H5Screate_simple(Rank, &extents[0], nullptr), H5Sclose, "create dataspace");
+    H5Handle plist;
     hid_t plist_id=H5P_DEFAULT;
     if(compressLevel){
         assert(compressLevel<=9);
-        plist_id = H5Pcreate(H5P_DATASET_CREATE);
+        plist = H5Handle(H5Pcreate(H5P_DATASET_CREATE), H5Pclose, "create property list");
+        plist_id = plist;
         std::array<hsize_t,Rank> chunkDims;
         unsigned long size=sizeof(DestType);
         const unsigned long targetChunkSize=1UL<<16; //64KB seems like a good size
@@ -343,18 +354,17 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
             else
                 chunkDims[i-1]=1;
         }
-        H5Pset_chunk(plist_id, Rank, &chunkDims[0]);
-        H5Pset_deflate(plist_id, compressLevel);
+        if(H5Pset_chunk(plist_id, Rank, &chunkDims[0])<0 || H5Pset_deflate(plist_id, compressLevel)<0)
+            throw std::runtime_error("Failed to set up compression for HDF5 dataset '"+name+"'");
     }
     
-    hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
+    H5Handle dSet(H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT),
+                  H5Dclose, ("create dataset '"+name+"'").c_str());
     herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    
-    //need to close whether or not there's an error
-    if(compressLevel)
-        H5Pclose(plist_id);
-    H5Dclose(dSet);
-    H5Sclose(dSpace);
+    //data may only reach the file when the dataset is closed
+    herr_t close_err=dSet.close();
+    if(err>=0)
+        err=close_err;
     
     if(err<0)
         throw std::runtime_error("Failed to write marray to HDF5 (name: "
-- 
2.43.0


From 1d87d4f29f7638b8272e748e3faff4731c01afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 16/63] fix: close the dataset and report every failure when an
 array cannot be read

---
 include/nuSQuIDS/tools.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 7d86c3f..dd9af72 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -373,22 +373,19 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
 
 template<typename T, unsigned int Rank, typename Alloc>
 void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>& data){
-    hid_t array_id=H5Dopen2(container, name.c_str(), H5P_DEFAULT);
-    if(array_id<0)
-        throw std::runtime_error("Failed to open dataset '"+name+"'");
+    H5Handle array_id(H5Dopen2(container, name.c_str(), H5P_DEFAULT), H5Dclose, ("open dataset '"+name+"'").c_str());
     hid_t dType=h5Datatype<T>::type();
-    hid_t dSpace = H5Dget_space(array_id);
+    H5Handle dSpace(H5Dget_space(array_id), H5Sclose, "get dataspace");
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
     if(raw_dim!=Rank)
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
     std::array<hsize_t,Rank> extents;
-    H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
-    H5Sclose(dSpace);
+    if(H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr)<0)
+        throw std::runtime_error("Failed to get the extents of dataset '"+name+"'");
     data.resize(extents);
     herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    H5Dclose(array_id);
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
 }
-- 
2.43.0


From c57e15dac696dd28f3c19b0c1e7f0e37be379b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 17/63] fix: report failures to store numeric attributes and do
 not leave objects open

---
 include/nuSQuIDS/tools.h | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index dd9af72..ef00cad 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -394,11 +394,11 @@ template<typename T>
 void addH5Attribute(hid_t object, std::string name, const T& contents){
     hid_t dtype=h5Datatype<T>::type();
     hsize_t dim=1;
-    hid_t dataspace_id=H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id=H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id,dtype,&contents);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id,dtype,&contents)<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
@@ -406,25 +406,16 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
 
 template<typename T>
 void readH5Attribute(hid_t object, std::string name, T& dest){
-    hid_t attribute_id=H5Aopen(object, name.c_str(), H5P_DEFAULT);
-    hid_t actualType=H5Aget_type(attribute_id);
+    H5Handle attribute_id(H5Aopen(object, name.c_str(), H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+    H5Handle actualType(H5Aget_type(attribute_id), H5Tclose, "get attribute type");
     hid_t expectedType=h5Datatype<T>::type();
     
     //TODO: this may be too harsh; it ignores whether conversion is possible
-    if(H5Tequal(actualType, expectedType)<=0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Tequal(actualType, expectedType)<=0)
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
-    }
     
-    if(H5Aread(attribute_id, expectedType, &dest)<0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Aread(attribute_id, expectedType, &dest)<0)
         throw std::runtime_error("Failed to read attribute '"+name+"'");
-    }
-    
-    H5Aclose(attribute_id);
-    H5Tclose(actualType);
 }
 
 template<>
-- 
2.43.0


From 11513a68328d3eae05bf883956ecd4c653c8fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 18/63] fix: store empty strings, report failures and do not
 leave objects open for string attributes

---
 src/tools.cpp | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c052089..beee501 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -813,38 +813,44 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
     
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
-    hid_t strtype = H5Tcopy(H5T_C_S1);
-    H5Tset_size(strtype, contents.size());
+    H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "create string type");
     hsize_t dim=1;
-    hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id, strtype, &contents[0]);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id;
+    if(contents.empty()) //HDF5 has no strings of zero length, so store no string
+        dataspace_id = H5Handle(H5Screate(H5S_NULL), H5Sclose, "create dataspace");
+    else{
+        if(H5Tset_size(strtype, contents.size())<0)
+            throw std::runtime_error("Failed to create a string type for attribute '"+name+"'");
+        dataspace_id = H5Handle(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+    }
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id, strtype, contents.c_str())<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
 void readH5Attribute<std::string>(hid_t object, std::string name, std::string& dest){
-    hid_t attribute_id = H5Aopen(object, name.c_str(), H5P_DEFAULT);
-    hid_t actualType = H5Aget_type(attribute_id);
+    H5Handle attribute_id(H5Aopen(object, name.c_str(), H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+    H5Handle actualType(H5Aget_type(attribute_id), H5Tclose, "get attribute type");
     H5T_class_t typeClass = H5Tget_class(actualType);
-    if(typeClass!=H5T_STRING){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(typeClass!=H5T_STRING)
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
-    }
     
+    H5Handle dSpace(H5Aget_space(attribute_id), H5Sclose, "get dataspace");
+    H5S_class_t spaceClass = H5Sget_simple_extent_type(dSpace);
     size_t size = H5Tget_size(actualType);
-    dest.resize(size);
-    
-    if(H5Aread(attribute_id, actualType, &dest[0])<0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(spaceClass==H5S_NO_CLASS || size==0)
         throw std::runtime_error("Failed to read attribute '"+name+"'");
+    if(spaceClass==H5S_NULL){ //an empty string
+        dest.clear();
+        return;
     }
     
-    H5Aclose(attribute_id);
-    H5Tclose(actualType);
+    std::string contents(size,'\0');
+    if(H5Aread(attribute_id, actualType, &contents[0])<0)
+        throw std::runtime_error("Failed to read attribute '"+name+"'");
+    dest.swap(contents);
 }
 
 } // close namespace
-- 
2.43.0


From 74336bd1e61bdd458977f39caec7855dd70e5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 19/63] fix: take mixed y-z derivatives from the right slice in
 TriCubicInterpolator

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index beee501..762b421 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -575,7 +575,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From eeb36497321b4e7eda5b0dfbfeebe72d939ba4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 20/63] fix: report a failure to allocate an integration
 workspace

---
 include/nuSQuIDS/tools.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index ef00cad..df98d4d 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -98,7 +98,11 @@ public:
     gsl_integration_workspace* ws;
     IntegrateWorkspace(size_t limit) {
         ws=gsl_integration_workspace_alloc(limit);
+        if(!ws)
+            throw std::runtime_error("Failed to allocate an integration workspace");
     }
+    IntegrateWorkspace(const IntegrateWorkspace&)=delete;
+    IntegrateWorkspace& operator=(const IntegrateWorkspace&)=delete;
     ~IntegrateWorkspace() {
         gsl_integration_workspace_free(ws);
     }
-- 
2.43.0


From b7b2a1bed4e77c90af90538300b491765f0529fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 21/63] fix: keep the radius and atmosphere height given to
 EarthAtm::Track::MakeWithCosine

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..59c7954 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -771,6 +771,8 @@ EarthAtm::Track
 EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmheight_){
   Track track;
 
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   track.cosphi = cosphi;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
-- 
2.43.0


From 0b796a3981816b241e4ec44c0ddaf4a910d00540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 22/63] fix: restore the direction of EarthAtm tracks

---
 src/body.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 59c7954..58b51cb 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -730,6 +730,11 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  // the ends differ from those implied by the angle if the track was reversed
+  if(H5Aexists(group,"xini"))
+    readH5Attribute(group,"xini", track->xini);
+  if(H5Aexists(group,"xend"))
+    readH5Attribute(group,"xend", track->xend);
   return track;
 }
 
-- 
2.43.0


From 8fb94fa1605073400005a24e201c8e10e6f1c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 23/63] fix: store the impact parameter of SunASnu tracks

---
 src/body.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 58b51cb..ed12a26 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -597,13 +597,21 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  double b_impact_;
+  if(H5Aexists(group,"b_impact"))
+    b_impact_=readDoubleAttribute(group,"b_impact");
+  else // not originally serialized, but the length of the track implies it
+    b_impact_=sqrt(SQR(694439.0*param.km)-SQR(0.5*xend_));
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 5af7a298b6710d5a432f95e2fe1dfdfc903ffed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 24/63] fix: use the same radius for every SunASnu

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index ed12a26..a14b2fd 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -579,7 +579,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From b4f0f286c18c70a7922919e8e8d8b76c8101f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 25/63] fix: report failures to store attributes of bodies and
 tracks and do not leave objects open

---
 src/body.cpp | 55 +++++++++++-----------------------------------------
 1 file changed, 11 insertions(+), 44 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index a14b2fd..9c829e3 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -51,68 +51,35 @@ namespace {
 squids::Const param;
 
 void addStringAttribute(hid_t object, std::string name, std::string contents){
-  hid_t strtype = H5Tcopy(H5T_C_S1);
-  H5Tset_size(strtype, contents.size());
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, strtype, &contents[0]);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute(object,name,contents);
 }
 
-//not currently used
-/*
-std::string readStringAttribute(hid_t object, std::string name){
-  hid_t strtype = H5Tcopy(H5T_C_S1);
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  hsize_t storage = H5Aget_storage_size(attribute_id);
-  if(storage==0)
-    throw std::runtime_error("Not finite space");
-  std::unique_ptr<char[]> char_out(new char[storage]);
-  herr_t status = H5Aread(attribute_id,strtype,char_out.get());
-  if(status<0)
-    throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
-  return std::string(char_out.get());
-}
-*/
-
 void addDoubleAttribute(hid_t object, std::string name, double value){
   hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_IEEE_F64LE, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+  H5Handle attribute_id(H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                        H5Aclose, ("create attribute '"+name+"'").c_str());
+  if(H5Awrite(attribute_id, H5T_NATIVE_DOUBLE, &value)<0)
+    throw std::runtime_error("Failed to write attribute '"+name+"'");
 }
 
 double readDoubleAttribute(hid_t object, std::string name){
   double target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_DOUBLE, &target);
-  if(status<0)
+  H5Handle attribute_id(H5Aopen(object,name.c_str(),H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+  if(H5Aread(attribute_id, H5T_NATIVE_DOUBLE, &target)<0)
     throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
   return target;
 }
 
 void addUIntAttribute(hid_t object, std::string name, unsigned int value){
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_NATIVE_UINT,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_NATIVE_UINT, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute(object,name,value);
 }
 
 unsigned int readUIntAttribute(hid_t object, std::string name){
   unsigned int target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_UINT, &target);
-  if(status<0)
+  H5Handle attribute_id(H5Aopen(object,name.c_str(),H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+  if(H5Aread(attribute_id, H5T_NATIVE_UINT, &target)<0)
     throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
   return target;
 }
 
-- 
2.43.0


From 5078f726817b7cf700924eec47b40a3e391ebe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 26/63] fix: report failures to store and load the profiles of
 bodies

---
 src/body.cpp | 92 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 41 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 9c829e3..89fe36e 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -31,7 +31,7 @@
 #include <utility>
 
 #include <H5Apublic.h>
-#include <H5LTpublic.h>
+#include <H5Dpublic.h>
 #include <H5Ppublic.h>
 #include <H5Spublic.h>
 #include <H5public.h>
@@ -83,6 +83,26 @@ unsigned int readUIntAttribute(hid_t object, std::string name){
   return target;
 }
 
+void addDoubleArray(hid_t object, const std::string& name, const std::vector<double>& data){
+  hsize_t dim=data.size();
+  H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create dataspace");
+  H5Handle dataset_id(H5Dcreate(object,name.c_str(),H5T_NATIVE_DOUBLE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT),
+                      H5Dclose, ("create dataset '"+name+"'").c_str());
+  if(H5Dwrite(dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data.data())<0 || dataset_id.close()<0)
+    throw std::runtime_error("Failed to write dataset '"+name+"'");
+}
+
+std::vector<double> readDoubleArray(hid_t object, const std::string& name, unsigned int size){
+  H5Handle dataset_id(H5Dopen2(object, name.c_str(), H5P_DEFAULT), H5Dclose, ("open dataset '"+name+"'").c_str());
+  H5Handle dataspace_id(H5Dget_space(dataset_id), H5Sclose, "get dataspace");
+  if(H5Sget_simple_extent_npoints(dataspace_id)!=size)
+    throw std::runtime_error("Dataset '"+name+"' does not have the expected size");
+  std::vector<double> data(size);
+  if(H5Dread(dataset_id, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, data.data())<0)
+    throw std::runtime_error("Failed to read dataset '"+name+"'");
+  return data;
+}
+
 } // close unnamed namespace
 
 
@@ -207,18 +227,16 @@ inter_density(x_arr,density_arr),inter_ye(x_arr,ye_arr)
 void VariableDensity::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "x_arr", 1, dims.data(), x_arr.data());
-  H5LTmake_dataset_double(group, "density_arr", 1, dims.data(), density_arr.data());
-  H5LTmake_dataset_double(group, "ye_arr", 1, dims.data(), ye_arr.data());
+  addDoubleArray(group, "x_arr", x_arr);
+  addDoubleArray(group, "density_arr", density_arr);
+  addDoubleArray(group, "ye_arr", ye_arr);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"x_arr",x_vec.data());
-  H5LTread_dataset_double(group,"density_arr",rho_vec.data());
-  H5LTread_dataset_double(group,"ye_arr",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"x_arr",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"density_arr",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"ye_arr",asize);
   return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
 }
 
@@ -319,18 +337,16 @@ inter_density(earth_radius,earth_density),inter_ye(earth_radius,earth_ye)
 void Earth::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleArray(group, "earth_radius", earth_radius);
+  addDoubleArray(group, "earth_density", earth_density);
+  addDoubleArray(group, "earth_ye", earth_ye);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"earth_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"earth_density",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"earth_ye",asize);
   return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
 }
 
@@ -448,17 +464,15 @@ inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 void Sun::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleArray(group, "sun_radius", sun_radius);
+  addDoubleArray(group, "sun_density", sun_density);
+  addDoubleArray(group, "sun_xh", sun_xh);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
+  std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
   return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
 }
 
@@ -584,18 +598,16 @@ std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
 void SunASnu::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleArray(group, "sun_radius", sun_radius);
+  addDoubleArray(group, "sun_density", sun_density);
+  addDoubleArray(group, "sun_xh", sun_xh);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
+  std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
   return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
 }
 
@@ -716,20 +728,18 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
 void EarthAtm::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleArray(group, "earth_radius", earth_radius);
+  addDoubleArray(group, "earth_density", earth_density);
+  addDoubleArray(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
 }
 
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"earth_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"earth_density",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"earth_ye",asize);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
   double radius = 6371.0;
-- 
2.43.0


From d3641f32dd20fd0f74dcc94f9139fdbe48a2c659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 27/63] fix: refuse tables with too few columns as models of
 the Earth and the Sun

---
 src/body.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index 89fe36e..26c1c6c 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -294,6 +294,8 @@ Earth::Earth(std::string filepath):Body()
 
   marray<double,2> earth_model = quickread(filepath);
   arraysize = earth_model.extent(0);
+  if(arraysize==0 || earth_model.extent(1)<3)
+    throw std::runtime_error("nuSQUIDS::Error::The Earth model in '"+filepath+"' does not have three columns.");
 
   earth_radius.resize(arraysize);
   earth_density.resize(arraysize);
@@ -438,6 +440,8 @@ Sun::Sun(std::string sunlocation):Body()
   // import sun model
   sun_model = quickread(sunlocation);
   arraysize = sun_model.extent(0);
+  if(arraysize==0 || sun_model.extent(1)<7)
+    throw std::runtime_error("nuSQUIDS::Error::The solar model in '"+sunlocation+"' does not have seven columns.");
 
   sun_radius.resize(arraysize);
   sun_density.resize(arraysize);
@@ -541,6 +545,8 @@ SunASnu::SunASnu(std::string sunlocation):Body()
 
   sun_model = quickread(sunlocation);
   arraysize = sun_model.extent(0);
+  if(arraysize==0 || sun_model.extent(1)<7)
+    throw std::runtime_error("nuSQUIDS::Error::The solar model in '"+sunlocation+"' does not have seven columns.");
 
   sun_radius.resize(arraysize);
   sun_density.resize(arraysize);
@@ -845,6 +851,8 @@ EarthAtm::EarthAtm(std::string filepath):Body()
 
   marray<double,2> earth_model = quickread(filepath);
   arraysize = earth_model.extent(0);
+  if(arraysize==0 || earth_model.extent(1)<3)
+    throw std::runtime_error("nuSQUIDS::Error::The Earth model in '"+filepath+"' does not have three columns.");
 
   earth_radius.resize(arraysize);
   earth_density.resize(arraysize);
-- 
2.43.0


From dce3b5d9df33a4bc364fe097727821bae210830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:01 +0000
Subject: [PATCH 28/63] fix: store whether a body was declared to have constant
 density

---
 src/body.cpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 26c1c6c..a884846 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -92,6 +92,18 @@ void addDoubleArray(hid_t object, const std::string& name, const std::vector<dou
     throw std::runtime_error("Failed to write dataset '"+name+"'");
 }
 
+void addConstantDensityFlag(hid_t object, bool is_constant_density){
+  addUIntAttribute(object,"is_constant_density",is_constant_density);
+}
+
+bool readConstantDensityFlag(hid_t object){
+  // this was originally not serialized
+  htri_t exists=H5Aexists(object,"is_constant_density");
+  if(exists<0)
+    throw std::runtime_error("Failed to look for attribute 'is_constant_density'");
+  return exists && readUIntAttribute(object,"is_constant_density");
+}
+
 std::vector<double> readDoubleArray(hid_t object, const std::string& name, unsigned int size){
   H5Handle dataset_id(H5Dopen2(object, name.c_str(), H5P_DEFAULT), H5Dclose, ("open dataset '"+name+"'").c_str());
   H5Handle dataspace_id(H5Dget_space(dataset_id), H5Sclose, "get dataspace");
@@ -230,6 +242,7 @@ void VariableDensity::Serialize(hid_t group) const {
   addDoubleArray(group, "x_arr", x_arr);
   addDoubleArray(group, "density_arr", density_arr);
   addDoubleArray(group, "ye_arr", ye_arr);
+  addConstantDensityFlag(group, is_constant_density);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
@@ -237,7 +250,9 @@ std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   std::vector<double> x_vec=readDoubleArray(group,"x_arr",asize);
   std::vector<double> rho_vec=readDoubleArray(group,"density_arr",asize);
   std::vector<double> ye_vec=readDoubleArray(group,"ye_arr",asize);
-  return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  auto body = std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
+  body->SetIsConstantDensity(readConstantDensityFlag(group));
+  return body;
 }
 
 // track constructor
@@ -342,6 +357,7 @@ void Earth::Serialize(hid_t group) const {
   addDoubleArray(group, "earth_radius", earth_radius);
   addDoubleArray(group, "earth_density", earth_density);
   addDoubleArray(group, "earth_ye", earth_ye);
+  addConstantDensityFlag(group, is_constant_density);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
@@ -349,7 +365,9 @@ std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   std::vector<double> x_vec=readDoubleArray(group,"earth_radius",asize);
   std::vector<double> rho_vec=readDoubleArray(group,"earth_density",asize);
   std::vector<double> ye_vec=readDoubleArray(group,"earth_ye",asize);
-  return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  auto body = std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
+  body->SetIsConstantDensity(readConstantDensityFlag(group));
+  return body;
 }
 
 double Earth::density(const GenericTrack& track_input) const
@@ -471,13 +489,16 @@ void Sun::Serialize(hid_t group) const {
   addDoubleArray(group, "sun_radius", sun_radius);
   addDoubleArray(group, "sun_density", sun_density);
   addDoubleArray(group, "sun_xh", sun_xh);
+  addConstantDensityFlag(group, is_constant_density);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
   std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
   std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
   std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
-  return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  auto body = std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
+  body->SetIsConstantDensity(readConstantDensityFlag(group));
+  return body;
 }
 
 double Sun::rdensity(double x) const{
@@ -607,6 +628,7 @@ void SunASnu::Serialize(hid_t group) const {
   addDoubleArray(group, "sun_radius", sun_radius);
   addDoubleArray(group, "sun_density", sun_density);
   addDoubleArray(group, "sun_xh", sun_xh);
+  addConstantDensityFlag(group, is_constant_density);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
@@ -614,7 +636,9 @@ std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
   std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
   std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
-  return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  auto body = std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
+  body->SetIsConstantDensity(readConstantDensityFlag(group));
+  return body;
 }
 
 void SunASnu::Track::FillDerivedParams(std::vector<double>& TrackParams) const{
@@ -737,6 +761,7 @@ void EarthAtm::Serialize(hid_t group) const {
   addDoubleArray(group, "earth_radius", earth_radius);
   addDoubleArray(group, "earth_density", earth_density);
   addDoubleArray(group, "earth_ye", earth_ye);
+  addConstantDensityFlag(group, is_constant_density);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
 }
@@ -757,6 +782,7 @@ std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   auto earthAtm = std::make_shared<EarthAtm>(x_vec,rho_vec,ye_vec);
   earthAtm->radius = radius;
   earthAtm->SetAtmosphereHeight(atm_height);
+  earthAtm->SetIsConstantDensity(readConstantDensityFlag(group));
   return earthAtm;
 }
 
-- 
2.43.0


From 25bb436933bf5beef5b56e679cf745052d07a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 29/63] fix: write the distinct muon flavor cross sections to
 HDF5 files

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..da84ad7 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From e7d0132e875fca93ace80052b9fa8d7dcd856aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 30/63] fix: read cross section tables with different numbers
 of energies and z values

---
 include/nuSQuIDS/xsections.h | 4 ++--
 src/xsections.cpp            | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..babfa6d 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,9 +492,9 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
-    /// energy in the tables, E_in = E_min, the row corresponding to this energy 
+    /// energy in the tables, E_in = E_min, the column corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
     /// never be used directly. -50, corresponding to a cross section of 1e-50 
     /// cm^2 can be a good choice in practice. 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index da84ad7..e6406b0 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -398,10 +398,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+"'s second dimension does not have the same size as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From 4d380f5907c546b2ec477af5f2c6946cb69c2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 31/63] fix: write cross sections to text files in the order
 and precision in which they are read, and report failures

---
 src/xsections.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index e6406b0..70189af 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -339,24 +339,32 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		//this makes a copy, which is unfortunate, but not a disaster for the 1D data
 		auto ab=data.getAbscissas();
 		auto ord=data.getOrdinates();
 		for(std::size_t i=0, n=ab.extent(0); i!=n; i++)
 			outfile << pow(10.,ab[i])/GeV << ' ' << pow(10.,ord[i]) << '\n';
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	auto write2D=[this](const BiCubicInterpolator& data, const std::string& path){
 		std::ofstream outfile(path);
 		if(!outfile)
 			throw std::runtime_error("Unable to open "+path+" for writing");
+		outfile.precision(std::numeric_limits<double>::max_digits10);
 		const auto& x=data.getXCoords();
 		const auto& y=data.getYCoords();
 		const auto& z=data.getData();
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	NeutrinoFlavor flavor;
 	std::string name;
@@ -814,6 +822,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeTotal=[](const std::string& path, const marray<double,3>& data,
                      const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie=0; ie<logEnergies.size(); ie++){
       out << exp(logEnergies[ie]) << ' ';
       for(size_t fl : {0,1,2}){
@@ -822,6 +833,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
       }
       out << '\n';
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeTotal(filename_sigma_CC,s_CC_data,logE_data_range,GeV);
   writeTotal(filename_sigma_NC,s_NC_data,logE_data_range,GeV);
@@ -829,6 +843,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
   auto writeDifferential=[](const std::string& path, const marray<double,4>& data,
                             const std::vector<double>& logEnergies, double GeV){
     std::ofstream out(path);
+    if(!out)
+      throw std::runtime_error("Unable to open "+path+" for writing");
+    out.precision(std::numeric_limits<double>::max_digits10);
     for(size_t ie1=0; ie1<logEnergies.size(); ie1++){
       double e1=exp(logEnergies[ie1]);
       for(size_t ie2=0; ie2<logEnergies.size(); ie2++){
@@ -841,6 +858,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
         out << '\n';
       }
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeDifferential(filename_dsde_CC,dsde_CC_data,logE_data_range,GeV);
   writeDifferential(filename_dsde_NC,dsde_NC_data,logE_data_range,GeV);
-- 
2.43.0


From 3cf5256e135bc6f48147d6f6cf0657bcdb55190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 32/63] fix: report failures to create and complete HDF5 files
 of cross sections

---
 src/xsections.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 70189af..a4e3215 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -547,7 +547,7 @@ void NeutrinoDISCrossSectionsFromTables::writeFlavorHDF5(hid_t destLoc, const pe
 }
 
 void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsigned int compressionLevel) const{
-	H5File h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
+	H5Handle h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT),H5Fclose,"create HDF5 file for cross sections");
 	
 	{
 		using StoreType=float;
@@ -591,6 +591,9 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		H5Handle nutauGrp(H5Gcreate(h5file, "tau", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_tau cross sections");
 		writeFlavorHDF5(nutauGrp, getFlavor(tau), compressionLevel);
 	}
+	
+	if(h5file.close()<0)
+		throw std::runtime_error("Failed to write cross sections to "+path);
 }
 
 double NeutrinoDISCrossSectionsFromTables_V1::LinInter(double x,double xM, double xP,double yM,double yP) const{
@@ -804,13 +807,15 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
 NeutrinoDISCrossSectionsFromTables_V1::~NeutrinoDISCrossSectionsFromTables_V1(){}
     
 void NeutrinoDISCrossSectionsFromTables_V1::WriteHDF(std::string path) const{
-  H5File h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
+  H5Handle h5file(H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT),H5Fclose,"create HDF5 file for cross sections");
   addH5Attribute(h5file, "Emin", Emin);
   addH5Attribute(h5file, "Emax", Emax);
   writeArrayH5<double>(h5file, "s_CC", s_CC_data, 0);
   writeArrayH5<double>(h5file, "s_NC", s_NC_data, 0);
   writeArrayH5<double>(h5file, "dsDE_CC", dsde_CC_data, 0);
   writeArrayH5<double>(h5file, "dsDE_NC", dsde_NC_data, 0);
+  if(h5file.close()<0)
+    throw std::runtime_error("Failed to write cross sections to "+path);
 }
   
 void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) const{
-- 
2.43.0


From 13bf9fae1ce26d4229737f7c8b3438d98cec857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 33/63] fix: do not read beyond the end of cross section tables
 at the highest tabulated energy

---
 src/xsections.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index a4e3215..2ac77d8 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -637,8 +637,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  if(idx>=div-1) //the upper end of the table is part of the last interval
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
@@ -667,6 +667,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
 
   if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
+  if (loge_M2 == div-1) //the upper end of the table is part of the last interval
+    loge_M2--;
 
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
-- 
2.43.0


From e3e87f7fa7453d9c081ff2833d0f7012d82f4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 34/63] fix: refuse cross section tables of inconsistent sizes

---
 src/xsections.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 2ac77d8..c28b3aa 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -729,11 +729,13 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           marray<double,2> sigma_NC_raw_data = quickread(filename_sigma_NC);
 
           // check table shapes and get the number of energy nodes
-          unsigned int data_e_size = 0;
-          if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
-            data_e_size = sigma_CC_raw_data.extent(0);
-          else
+          size_t data_e_size = sigma_CC_raw_data.extent(0);
+          if( data_e_size < 2 or
+              sigma_NC_raw_data.extent(0) != data_e_size or
+              dsde_CC_raw_data.extent(0) != data_e_size*data_e_size or
+              dsde_NC_raw_data.extent(0) != data_e_size*data_e_size or
+              sigma_CC_raw_data.extent(1) < 7 or sigma_NC_raw_data.extent(1) < 7 or
+              dsde_CC_raw_data.extent(1) < 8 or dsde_NC_raw_data.extent(1) < 8 )
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
 
           // getting the raw data energy node values
@@ -785,14 +787,13 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
+    const size_t nEnergies=dsde_CC_data.extent(2);
+    const std::array<size_t,3> totalShape{{2,3,nEnergies}};
+    const std::array<size_t,4> differentialShape{{2,3,nEnergies,nEnergies}};
+    if(nEnergies<2 ||
+       s_CC_data.get_extents()!=totalShape || s_NC_data.get_extents()!=totalShape ||
+       dsde_CC_data.get_extents()!=differentialShape || dsde_NC_data.get_extents()!=differentialShape)
+      throw std::runtime_error("nuSQUIDS::xsections::init: Data tables in "+path+" do not have consistent sizes.");
     
     div=dsde_CC_data.extent(2);
     unsigned int data_e_size=div;
-- 
2.43.0


From 0dc2fba9381c3add5ad358761648f10d971e5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 35/63] fix: check the energy domain of every text file of
 cross sections

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index c28b3aa..46f887d 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -279,6 +279,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From 650b125790e90391245fb3026cb68340459a7105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 36/63] fix: report failures of evolving a zenith angle in a
 thread, and keep the progress bar setting

---
 include/nuSQuIDS/nuSQuIDS.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..2006759 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1304,20 +1304,24 @@ class nuSQUIDSAtm {
         }
       }
       else{
-        bool overrideProgressBar=progressbar;
-        Set_ProgressBar(false);
+        //turn off the progress bars of the individual objects until this function is left, even if it fails
+        struct ProgressBarOverride{
+          nuSQUIDSAtm& atm;
+          const bool original;
+          ProgressBarOverride(nuSQUIDSAtm& atm):atm(atm),original(atm.progressbar){ atm.Set_ProgressBar(false); }
+          ~ProgressBarOverride(){ atm.Set_ProgressBar(original); }
+        } progressBarOverride(*this);
         ThreadPool tpool(evalThreads);
         std::vector<std::future<void>> tasks;
         tasks.reserve(nusq_array.size());
         for(BaseSQUIDS& nsq : nusq_array)
           tasks.emplace_back(tpool.enqueue([&](){ nsq.EvolveState(); }));
         unsigned int i = 0;
-        for(const auto& task : tasks){
-          task.wait();
-          if(overrideProgressBar)
+        for(auto& task : tasks){
+          task.get(); //rethrows any failure of the task; the pool completes the others before it is destroyed
+          if(progressBarOverride.original)
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
-        Set_ProgressBar(overrideProgressBar);
       }
     }
 
-- 
2.43.0


From 72f2d5b0600ad87362ac94f352da5d2fe7102ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 37/63] fix: move and release the random number generator of
 nuSQUIDSAtm, and initialize all of its members

---
 include/nuSQuIDS/nuSQuIDS.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 2006759..ba37743 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1072,7 +1072,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void (*)(gsl_rng *)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1086,9 +1086,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1107,7 +1107,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
@@ -1129,7 +1129,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc(T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1160,13 +1160,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc(T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1189,6 +1190,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1376,7 +1378,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From 7bb722de626ac95db2558d9787cde6eb73891c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 38/63] fix: do not use interaction data whose computation
 failed

---
 src/nuSQuIDS.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..aadf5df 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -985,6 +985,12 @@ void nuSQUIDS::InitializeInteractions(){
   // if we don't already have cached data, create it
   if ( !int_struct ) {
     int_struct.reset(new InteractionStructure);
+    //if anything below fails the data is not complete and must not be used
+    struct ResetUnlessComplete{
+      std::shared_ptr<InteractionStructure>& data;
+      bool complete;
+      ~ResetUnlessComplete(){ if(!complete) data.reset(); }
+    } guard{int_struct,false};
     // initialize cross section object if we don't have one
     if ( ncs == nullptr) {
       ncs = std::make_shared<CrossSectionLibrary>(loadDefaultCrossSections());
@@ -1027,6 +1033,7 @@ void nuSQUIDS::InitializeInteractions(){
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
+    guard.complete=true;
   }
   
   if(iinteraction){
-- 
2.43.0


From f7c7addfbcc983824490c0797e5bd23c78e6cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 39/63] fix: compute and size what the Glashow resonance and
 tau regeneration need when they are enabled after the interactions were
 initialized

---
 src/nuSQuIDS.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index aadf5df..12f162d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1039,12 +1039,10 @@ void nuSQUIDS::InitializeInteractions(){
   if(iinteraction){
     size_t rounded_ne=round_up_to_aligned(ne);
     nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
-    if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
-    }
-    if(iglashow)
-      gr_factors.resize(std::vector<size_t>{rounded_ne});
+    //tau regeneration and the Glashow resonance may also be enabled later
+    tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+    tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
+    gr_factors.resize(std::vector<size_t>{rounded_ne});
   }
   
   interactions_initialized=true;
@@ -1152,7 +1150,8 @@ void nuSQUIDS::GetCrossSections(){
   }
 
     // construct dNdE for Glashow resonance
-    if(iglashow && (NT == both or NT == antineutrino)){
+    // which may also be enabled later
+    if((iglashow || ncs->hasTarget(electron)) && (NT == both or NT == antineutrino)){
       auto gr_cs = ncs->crossSectionForTarget(electron);
       if(!gr_cs)
         throw std::runtime_error("Glashow Resonance handling is active, but the supplied cross sections do not include a cross section for electrons");
-- 
2.43.0


From 3cec75c237bdb95c36e30da7215733c28b1ea300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 40/63] fix: use the cross sections given by
 SetNeutrinoCrossSections after the interactions were initialized

---
 include/nuSQuIDS/nuSQuIDS.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index ba37743..cd82a9f 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1040,6 +1040,7 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       int_struct.reset(); //computed from the previous cross sections
        interactions_initialized=false;
     }
 
-- 
2.43.0


From 153a8e9846156a6638da244f373f2f7d0a1f05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 41/63] fix: add the flux of neutrino sources once when
 oscillations are off

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 12f162d..d629e3e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -839,6 +839,7 @@ void nuSQUIDS::UpdateInteractions(){
                                     <squids::detail::EqualSizes | squids::detail::AlignedStorage>
                                     (factors_nu_tau[e1]*projector_tau);
       }
+    }
 
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
@@ -852,7 +853,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
 
   } //end of no oscillation handling
   else{ //oscillations
-- 
2.43.0


From f0eead0ce9ed98dde806a3cde799b1d65734f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 42/63] fix: point the integration step along the track also
 when evolving repeatedly

---
 src/nuSQuIDS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index d629e3e..4f589ae 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1259,7 +1259,9 @@ void nuSQUIDS::EvolveState(){
   // is track time reversed
   if(track->GetFinalX() < track->GetInitialX()){
     // flip the arrow of time
-    Set_h((-1.0)*Get_h());
+    Set_h(-std::abs(Get_h()));
+  } else {
+    Set_h(std::abs(Get_h()));
   }
 
   if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
-- 
2.43.0


From 186dc83941badacdbb339fe520522b09ddb1ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 43/63] fix: end at the end of the track when enforcing
 positivity on a track which is reversed or does not start at zero

---
 src/nuSQuIDS.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 4f589ae..e8f5d4c 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1298,12 +1298,14 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
+    double length = track->GetFinalX() - track->GetInitialX();
+    double step = std::copysign(positivization_scale,length);
+    int positivization_steps = static_cast<int>(length/step);
     for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+      Evolve(step);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
+    Evolve(length-step*positivization_steps);
     PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
-- 
2.43.0


From a2453995d02c140543a394d86091023406180de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 44/63] fix: initialize the positivity step in single energy
 mode and the time offset

---
 include/nuSQuIDS/nuSQuIDS.h | 2 +-
 src/nuSQuIDS.cpp            | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index cd82a9f..917c921 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -488,7 +488,7 @@ protected:
     /// \brief Number of steps upon which the progress bar will be updated.
     int progressbar_loop = 100;
     /// \brief Time offset between SQuIDS time and Track(x).
-    double time_offset;
+    double time_offset = 0;
     /// \brief Force flavor projections to be positive.
     void PositivizeFlavors();
     /// \brief Set GSL differential cross section precision.
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e8f5d4c..403354b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -96,6 +96,7 @@ void nuSQUIDS::init(double xini){
   Set_CoherentRhoTerms(true);
   Set_h(1.*params.km);
   Set_h_max(std::numeric_limits<double>::max() );
+  positivization_scale = 300.0*params.km;
 
   //===============================
   // set parameters to default   //
-- 
2.43.0


From c0d2522d49e58a2499d587d167654f6d39c19564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 45/63] fix: continue correctly before and after an evolution
 in constant density mode, and do not skip neutrino sources in it

---
 src/nuSQuIDS.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 403354b..3cccdeb 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1265,14 +1265,27 @@ void nuSQUIDS::EvolveState(){
     Set_h(std::abs(Get_h()));
   }
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  if ( (body->IsConstantDensity() and not iinteraction and not enable_neutrino_sources) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
     use_full_hamiltonian_for_projector_evolution = true;
+    // disable interaction basis and go to mass basis
+    if(basis != mass){
+      // whatever has been evolved before in the interaction basis must be brought to the mass basis
+      if(Get_t() != Get_t_initial()){
+        for(unsigned int rho = 0; rho < nrhos; rho++){
+          for(unsigned int ie = 0; ie < ne; ie++){
+            squids::SU_vector in_mass_basis = state[ie].rho[rho].Evolve(H0(E_range[ie],rho),Get_t_initial()-Get_t());
+            state[ie].rho[rho] = in_mass_basis;
+          }
+        }
+      }
+      SetIniFlavorProyectors();
+      istate = true; // setting up the projectors touches the parameters, but does not change them
+      Set_Basis(mass);
+    }
     // turn off squids numerics
     Set_AnyNumerics(false);
-    // disable interaction basis and go to mass basis
-    Set_Basis(mass);
     double evolution_time = track->GetFinalX()-track->GetInitialX();
     // go go go
     // in this case it only calls prederive and exits
@@ -1298,6 +1311,10 @@ void nuSQUIDS::EvolveState(){
     return;
   }
 
+  // the numerics may have been turned off by an earlier evolution through constant density
+  Set_AnyNumerics(true);
+  use_full_hamiltonian_for_projector_evolution = false;
+
   if(positivization){
     double length = track->GetFinalX() - track->GetInitialX();
     double step = std::copysign(positivization_scale,length);
-- 
2.43.0


From c75fae882adf48d68fa3de2583b7eff6c5a562dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 46/63] fix: restore the CP phases if setting up the projectors
 fails

---
 include/nuSQuIDS/nuSQuIDS.h |  8 ++++++++
 src/nuSQuIDS.cpp            | 12 ++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 917c921..19e37e7 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -514,6 +514,14 @@ protected:
     void iniH0();
     /// \brief Changes the CP sign of the complex matrices stored in params.
     void AntineutrinoCPFix(unsigned int irho);
+
+    /// \brief Applies AntineutrinoCPFix() and undoes it at the end of its scope, also in case of an exception
+    struct AntineutrinoCPFixScope{
+      nuSQUIDS& nus;
+      const unsigned int irho;
+      AntineutrinoCPFixScope(nuSQUIDS& nus,unsigned int irho):nus(nus),irho(irho){ nus.AntineutrinoCPFix(irho); }
+      ~AntineutrinoCPFixScope(){ nus.AntineutrinoCPFix(irho); }
+    };
     /// \brief Serializes the initialization of the Body and Track objects.
     /// @see ReadStateHDF5
     void SetBodyTrack(unsigned int,unsigned int,double*,unsigned int,double*);
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 3cccdeb..401124a 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1664,9 +1664,8 @@ void nuSQUIDS::iniProjectors(){
     for(unsigned int flv = 0; flv < numneu; flv++){
       b1_proj[rho][flv] = squids::SU_vector::Projector(nsun,flv);
 
-      AntineutrinoCPFix(rho);
+      AntineutrinoCPFixScope fix(*this,rho);
       b1_proj[rho][flv].RotateToB1(params);
-      AntineutrinoCPFix(rho);
     }
   }
 
@@ -1678,9 +1677,8 @@ void nuSQUIDS::iniProjectors(){
         evol_b0_proj[rho][flv][e1] = squids::SU_vector::Projector(nsun,flv);
         evol_b1_proj[rho][flv][e1] = squids::SU_vector::Projector(nsun,flv);
 
-        AntineutrinoCPFix(rho);
+        AntineutrinoCPFixScope fix(*this,rho);
         evol_b1_proj[rho][flv][e1].RotateToB1(params);
-        AntineutrinoCPFix(rho);
       }
     }
   }
@@ -1693,15 +1691,13 @@ void nuSQUIDS::SetIniFlavorProyectors(){
       for(unsigned int e1 = 0; e1 < ne; e1++){
         evol_b1_proj[rho][flv][e1] = b0_proj[flv];
 
-        AntineutrinoCPFix(rho);
+        AntineutrinoCPFixScope fix(*this,rho);
         evol_b1_proj[rho][flv][e1].RotateToB1(params);
-        AntineutrinoCPFix(rho);
       }
       b1_proj[rho][flv] = b0_proj[flv];
 
-      AntineutrinoCPFix(rho);
+      AntineutrinoCPFixScope fix(*this,rho);
       b1_proj[rho][flv].RotateToB1(params);
-      AntineutrinoCPFix(rho);
     }
   }
 }
-- 
2.43.0


From eede1fb70551e9d89ecaf09450e83285b07095b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 47/63] fix: move all members of nuSQUIDS

---
 src/nuSQuIDS.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 401124a..e96baa6 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2945,23 +2945,40 @@ H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+use_full_hamiltonian_for_projector_evolution(other.use_full_hamiltonian_for_projector_evolution),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
   other.inusquids=false; //other is no longer usable, since we stole its contents
 }
@@ -2989,24 +3006,41 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
-
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+
+  use_full_hamiltonian_for_projector_evolution = other.use_full_hamiltonian_for_projector_evolution;
+  debug = other.debug;
   inusquids = other.inusquids;
   ibody = other.ibody;
   ienergy = other.ienergy;
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   NT = other.NT;
 
-- 
2.43.0


From d066c6fc04705b9a1348cea77713ac02ecc821ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 48/63] fix: align the arrays which are promised to be, and
 copy and compare the targets of interaction data

---
 include/nuSQuIDS/nuSQuIDS.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 19e37e7..d47a777 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -208,6 +208,7 @@ protected:
         {}
         /// \brief Assignment operator
         InteractionStructure& operator=(const InteractionStructure& other){
+          targets=other.targets;
           dNdE_CC=other.dNdE_CC;
           dNdE_NC=other.dNdE_NC;
           dNdE_GR=other.dNdE_GR;
@@ -220,6 +221,7 @@ protected:
         }
         /// \brief Move assignment operator
         InteractionStructure& operator=(InteractionStructure&& other){
+          targets=std::move(other.targets);
           dNdE_CC=std::move(other.dNdE_CC);
           dNdE_NC=std::move(other.dNdE_NC);
           dNdE_GR=std::move(other.dNdE_GR);
@@ -233,6 +235,7 @@ protected:
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
           if (
+               targets != other.targets or
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
                dNdE_GR.size() != other.dNdE_GR.size() or
@@ -278,6 +281,7 @@ protected:
         }
         /// \brief Copy constructor operator
         InteractionStructure(InteractionStructure& other):
+          targets(other.targets),
           dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
           sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
           dNdE_tau_all(other.dNdE_tau_all),
@@ -285,6 +289,7 @@ protected:
         {}
         /// \brief Move constructor operator
         InteractionStructure(InteractionStructure&& other):
+          targets(std::move(other.targets)),
           dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
           sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
           dNdE_tau_all(std::move(other.dNdE_tau_all)),
@@ -433,10 +438,11 @@ protected:
     ///Total size of interaction_cache_store
     size_t interaction_cache_store_size;
   
-    marray<double,3> nc_factors;
-    marray<double,2> tau_hadlep_decays;
-    marray<double,2> tau_lep_decays;
-    marray<double,1> gr_factors;
+    //these must be as aligned as UpdateInteractions promises
+    marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_hadlep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_lep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,1,aligned_allocator<double>> gr_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
   
     ///Initialize the interaction cahce data structures to the corretc sizes for
     ///the current problem.
-- 
2.43.0


From 7fcf8408468dee8d973191e0afda9b31557d276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 49/63] fix: set up the interaction arrays again if setting
 them up failed half-way

---
 src/nuSQuIDS.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e96baa6..956d56d 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -554,11 +554,14 @@ void nuSQUIDS::SetUpInteractionCache(){
   interaction_cache_store_size=headroom + nvectors*vector_size + (nvectors-1)*padding;
   //std::cout << "Allocating " << interaction_cache_store_size*sizeof(double) << " bytes" << std::endl;
   //std::cout << " space wasted achieving alignment: " << (headroom + (nvectors-1)*padding)*sizeof(double) << " bytes" << std::endl;
-  interaction_cache_store.reset(new double[interaction_cache_store_size]);
+  //initialization has not been done until everything below has succeeded
+  interaction_cache=marray<squids::SU_vector,2>(); //refers to the store
+  interaction_cache_store.reset();
+  std::unique_ptr<double[]> store(new double[interaction_cache_store_size]);
   
   interaction_cache.resize(std::initializer_list<size_t>{nrhos,ne});
-  //std::cout << "Initial pointer is " << interaction_cache_store.get() << std::endl;
-  double* ptr=interaction_cache_store.get();
+  //std::cout << "Initial pointer is " << store.get() << std::endl;
+  double* ptr=store.get();
   if(alignof(double)<32 && numneu>1){
     if(vector_size%2){ //odd number of elements; case (2)
       if((intptr_t)(ptr+1)%32)
@@ -581,14 +584,16 @@ void nuSQUIDS::SetUpInteractionCache(){
       ptr+=vector_size+padding;
     }
   }
+  interaction_cache_store=std::move(store);
 }
 
 void nuSQUIDS::UpdateInteractions(){
   //make sure vectors are the right size
   size_t rounded_ne=round_up_to_aligned(ne);
-  if(int_state.invlen_NC.extent(0)!=nrhos ||
-     int_state.invlen_NC.extent(1)!=numneu ||
-     int_state.invlen_NC.extent(2)!=rounded_ne){
+  //the one which is resized last tells whether all have been
+  if(int_state.invlen_INT.extent(0)!=nrhos ||
+     int_state.invlen_INT.extent(1)!=numneu ||
+     int_state.invlen_INT.extent(2)!=rounded_ne){
     int_state.invlen_NC.resize(std::vector<size_t>{nrhos,numneu,rounded_ne});
     int_state.invlen_CC.resize(std::vector<size_t>{nrhos,numneu,rounded_ne});
     int_state.invlen_GR.resize(std::vector<size_t>{rounded_ne});
-- 
2.43.0


From 4acfe4668bfd4ecc87bdffaaf7df3793f6f8bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 50/63] fix: report failures of saving the state, and do not
 destroy a file which cannot be opened for adding a state

---
 src/nuSQuIDS.cpp | 73 ++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 34 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 956d56d..506c671 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -49,6 +49,11 @@ namespace nusquids{
 
 namespace {
 
+void checkH5(herr_t err, const std::string& what){
+  if(err<0)
+    throw std::runtime_error("nuSQUIDS: Error: Failed to " + what);
+}
+
 std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* attr_name){
   herr_t err;
   int rank;
@@ -1742,11 +1747,10 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
               H5Fcreate(str.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) :
               H5Fopen(str.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
 
-  if (file < 0) {// file could not be open. Create a new file.
-    file=H5File(H5Fcreate(str.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
-    if (file < 0)
-        throw std::runtime_error("nuSQUIDS: Error: Cannot create file at " + str + ".");
-  }
+  if (file < 0 and not overwrite) // file could not be open. Create a new file, but keep an existing one.
+    file=H5File(H5Fcreate(str.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
+  if (file < 0)
+    throw std::runtime_error("nuSQUIDS: Error: Cannot create file at " + str + ".");
 
   H5Handle rootGroup(H5Gopen(file, "/",H5P_DEFAULT), H5Gclose, "open HDF5 group");
   if (strncmp(grp.c_str(),"/",1)!=0){
@@ -1762,56 +1766,56 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
 
   // write the energy range
   hsize_t Edims[1]={E_range.extent(0)};
-  H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data());
+  checkH5(H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data()),"write the state to "+str);
 
   // write mixing parameters
   hsize_t dim[1]{1};
-  H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr);
+  checkH5(H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write the state to "+str);
+  checkH5(H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write the state to "+str);
+  checkH5(H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write the state to "+str);
+  checkH5(H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write the state to "+str);
 
-  H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1);
+  checkH5(H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1),"write the state to "+str);
   int auxint = static_cast<int>(NT);
-  H5LTset_attribute_int(group, "basic","NT",&auxint,1);
-  H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False");
+  checkH5(H5LTset_attribute_int(group, "basic","NT",&auxint,1),"write the state to "+str);
+  checkH5(H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False"),"write the state to "+str);
   auxint = static_cast<int>(ioscillations);
-  H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1);
+  checkH5(H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1),"write the state to "+str);
   auxint = static_cast<int>(tauregeneration);
-  H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
+  checkH5(H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1),"write the state to "+str);
   auxint = static_cast<int>(iglashow);
-  H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  checkH5(H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1),"write the state to "+str);
   double auxt = Get_t();
-  H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
+  checkH5(H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1),"write the state to "+str);
   double auxt_ini = Get_t_initial();
-  H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1);
+  checkH5(H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1),"write the state to "+str);
 
   // version numbers
-  H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR);
+  checkH5(H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR),"write the state to "+str);
   unsigned int squids_version = SQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1);
+  checkH5(H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1),"write the state to "+str);
 
-  H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR);
+  checkH5(H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR),"write the state to "+str);
   unsigned int nusquids_version = NUSQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1);
+  checkH5(H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1),"write the state to "+str);
 
   // set mixing angles
   for( unsigned int i = 0; i < numneu; i++ ){
     for( unsigned int j = i+1; j < numneu; j++ ){
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
       double th_value = params.GetMixingAngle(i,j);
-      H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1);
+      checkH5(H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1),"write the state to "+str);
 
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
       double delta_value = params.GetPhase(i,j);
-      H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1);
+      checkH5(H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1),"write the state to "+str);
     }
   }
 
   for ( unsigned int i = 1; i < numneu; i++ ){
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
     double dm2_value = params.GetEnergyDifference(i);
-    H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1);
+    checkH5(H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1),"write the state to "+str);
   }
 
   //writing state
@@ -1836,17 +1840,15 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
     }
   }
 
-  H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data()));
-  H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data()));
+  checkH5(H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data())),"write the state to "+str);
+  checkH5(H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data())),"write the state to "+str);
 
   // writing body and track information
-  hid_t track_group_id = H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  track->Serialize(track_group_id);
-  H5Gclose(track_group_id);
+  H5Handle track_group(H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group");
+  track->Serialize(track_group);
 
-  hid_t body_group_id = H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  body->Serialize(body_group_id);
-  H5Gclose(body_group_id);
+  H5Handle body_group(H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group");
+  body->Serialize(body_group);
 
   // writing cross section information
   H5Handle xs_group;
@@ -1971,7 +1973,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       H5Handle dsetDSigmaGR(H5Dcreate2(xs_group,"dNdEgr",H5T_NATIVE_DOUBLE,dspaceDSigmaGR,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), H5Dclose, "create HDF5 dataset");
       
       //check the last dimension of the cross section arrays for padding
-      if(int_struct->dNdE_GR.extent(4)==ne){
+      if(int_struct->dNdE_CC.extent(4)==ne){
         //no padding, which makes writing easy; dataspaces are the same shape
         //write dNdE CC
         herr_t err=H5Dwrite(dsetDSigmaCC, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &*int_struct->dNdE_CC.begin());
@@ -2094,6 +2096,9 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
   AddToWriteHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
+
+  // closing the file does not report errors
+  checkH5(H5Fflush(file,H5F_SCOPE_GLOBAL),"write the state to "+str);
 }
 
 void nuSQUIDS::AddToWriteHDF5(hid_t hdf5_loc_id) const {
-- 
2.43.0


From 76dc68ac2d8e95402480a23d0d64a515e9ac2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 51/63] fix: report failures of restoring the state

---
 src/nuSQuIDS.cpp | 158 +++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 74 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 506c671..f2d1eac 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -54,6 +54,15 @@ void checkH5(herr_t err, const std::string& what){
     throw std::runtime_error("nuSQUIDS: Error: Failed to " + what);
 }
 
+///\return whether the attribute exists
+bool readOptionalAttribute(hid_t loc_id, const char* obj_name, const char* attr_name, int& dest){
+  htri_t exists=H5Aexists_by_name(loc_id,obj_name,attr_name,H5P_DEFAULT);
+  checkH5(exists,"look up attribute "+std::string(attr_name)+" of object "+std::string(obj_name));
+  if(exists)
+    checkH5(H5LTget_attribute_int(loc_id,obj_name,attr_name,&dest),"read attribute "+std::string(attr_name)+" of object "+std::string(obj_name));
+  return exists;
+}
+
 std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* attr_name){
   herr_t err;
   int rank;
@@ -66,7 +75,7 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   H5T_class_t type_class;
   size_t type_size;
   err=H5LTget_attribute_info(loc_id,obj_name,attr_name,&dims,&type_class,&type_size);
-  if(err<0)
+  if(err<0 || type_size==0)
     throw std::runtime_error("Failed to get info on attribute "+std::string(attr_name)+" of object "+std::string(obj_name));
   std::unique_ptr<char[]> buffer(new char[type_size+1]);
   if(!buffer)
@@ -2124,45 +2133,47 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if ( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // the object cannot be used unless everything could be read
+  istate = false;
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  checkH5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read the state from "+str);
   // neutrino/antineutrino/both
   int auxint;
   char auxchar[20];
-  herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  checkH5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read the state from "+str);
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
+  checkH5(H5LTget_attribute_string(group,"basic","interactions", auxchar),"read the state from "+str);
   std::string aux = auxchar;
   if ( aux == "True")
     iinteraction = true;
   else
     iinteraction = false;
 
-  err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
-  if(err>=0) ioscillations=auxint;
-  err=H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint);
-  if(err>=0) tauregeneration=auxint;
-  err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
-  if(err>=0) iglashow=auxint;
+  if(readOptionalAttribute(group, "basic", "oscillations", auxint))
+    ioscillations=auxint;
+  if(readOptionalAttribute(group, "basic", "tau_regeneration", auxint))
+    tauregeneration=auxint;
+  if(readOptionalAttribute(group, "basic", "glashow_resonance", auxint))
+    iglashow=auxint;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  checkH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read the state from "+str);
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  checkH5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read the state from "+str);
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  checkH5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read the state from "+str);
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  checkH5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read the state from "+str);
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2179,19 +2190,19 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    checkH5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read the state from "+str);
 
-    H5LTget_dataset_info(group,"body", dimbody,nullptr,nullptr);
+    checkH5(H5LTget_dataset_info(group,"body", dimbody,nullptr,nullptr),"read the state from "+str);
     double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    checkH5(H5LTread_dataset_double(group,"body", body_params),"read the state from "+str);
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track", dimtrack ,nullptr,nullptr);
+    checkH5(H5LTget_dataset_info(group,"track", dimtrack ,nullptr,nullptr),"read the state from "+str);
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    checkH5(H5LTread_dataset_double(group,"track", track_params.get()),"read the state from "+str);
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    checkH5(H5LTget_attribute_double(group,"track","X",&x_current),"read the state from "+str);
 
     // setting body and track
     SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
@@ -2201,11 +2212,11 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  checkH5(H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr),"read the state from "+str);
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  checkH5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read the state from "+str);
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2226,12 +2237,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      checkH5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read the state from "+str);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      checkH5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read the state from "+str);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2239,7 +2250,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    checkH5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read the state from "+str);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2262,13 +2273,13 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  checkH5(H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr),"read the state from "+str);
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  checkH5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read the state from "+str);
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  checkH5(H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr),"read the state from "+str);
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  checkH5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read the state from "+str);
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2301,11 +2312,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2332,45 +2342,47 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // the object cannot be used unless everything could be read
+  istate = false;
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  checkH5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read the state from "+str);
   // neutrino/antineutrino/both
   int auxint;
   char auxchar[20];
-  herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  checkH5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read the state from "+str);
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
+  checkH5(H5LTget_attribute_string(group,"basic","interactions", auxchar),"read the state from "+str);
   std::string aux = auxchar;
   if ( aux == "True")
     iinteraction = true;
   else
     iinteraction = false;
   
-  err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
-  if(err>=0) ioscillations=auxint;
-  err=H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint);
-  if(err>=0) tauregeneration=auxint;
-  err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
-  if(err>=0) iglashow=auxint;
+  if(readOptionalAttribute(group, "basic", "oscillations", auxint))
+    ioscillations=auxint;
+  if(readOptionalAttribute(group, "basic", "tau_regeneration", auxint))
+    tauregeneration=auxint;
+  if(readOptionalAttribute(group, "basic", "glashow_resonance", auxint))
+    iglashow=auxint;
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  checkH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read the state from "+str);
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  checkH5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read the state from "+str);
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  checkH5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read the state from "+str);
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  checkH5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read the state from "+str);
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2387,19 +2399,19 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    checkH5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read the state from "+str);
 
-    H5LTget_dataset_info(group,"body",dimbody,nullptr,nullptr);
+    checkH5(H5LTget_dataset_info(group,"body",dimbody,nullptr,nullptr),"read the state from "+str);
     double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    checkH5(H5LTread_dataset_double(group,"body", body_params),"read the state from "+str);
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track",dimtrack,nullptr,nullptr);
+    checkH5(H5LTget_dataset_info(group,"track",dimtrack,nullptr,nullptr),"read the state from "+str);
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    checkH5(H5LTread_dataset_double(group,"track", track_params.get()),"read the state from "+str);
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    checkH5(H5LTget_attribute_double(group,"track","X",&x_current),"read the state from "+str);
 
     // setting body and track
     SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
@@ -2410,11 +2422,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  checkH5(H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr),"read the state from "+str);
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  checkH5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read the state from "+str);
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2434,12 +2446,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      checkH5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read the state from "+str);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      checkH5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read the state from "+str);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2447,7 +2459,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    checkH5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read the state from "+str);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2470,13 +2482,13 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  checkH5(H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr),"read the state from "+str);
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  checkH5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read the state from "+str);
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  checkH5(H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr),"read the state from "+str);
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  checkH5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read the state from "+str);
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2515,7 +2527,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     else{
       //new files record the specific targets tabulated
       hsize_t rawNTargets=0;
-      H5LTget_dataset_info(xs_grp,"targets",&rawNTargets,nullptr,nullptr);
+      checkH5(H5LTget_dataset_info(xs_grp,"targets",&rawNTargets,nullptr,nullptr),"read the state from "+str);
       if(rawNTargets<1)
         throw std::runtime_error("Number of target types for cross sections does not make sense");
       nTargets=rawNTargets;
@@ -2532,8 +2544,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     }
     
     //get the actual dimensions of the main tables
-    H5LTget_dataset_info(xs_grp,"sigmacc",&XSdim[0],nullptr,nullptr);
-    H5LTget_dataset_info(xs_grp,"dNdEcc",&dXSdim[0],nullptr,nullptr);
+    checkH5(H5LTget_dataset_info(xs_grp,"sigmacc",&XSdim[0],nullptr,nullptr),"read the state from "+str);
+    checkH5(H5LTget_dataset_info(xs_grp,"dNdEcc",&dXSdim[0],nullptr,nullptr),"read the state from "+str);
     
     if(!nTargets) //if we don't yet know this, we're reading a new file and it's in the dataset dimensions
       nTargets=XSdim.front(); //first dimension is target type
@@ -2660,7 +2672,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       H5Handle dNdEtaulep(H5Dopen2(xs_grp,"dNdEtaulep",H5P_DATASET_ACCESS_DEFAULT),H5Dclose,"open dNdEtaulep dataset");
       
       int tau_spectra_rank;
-      H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_spectra_rank);
+      checkH5(H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_spectra_rank),"read the state from "+str);
       
       if(tau_spectra_rank == 3){ // spectra with polarization
         //check for padding
@@ -2700,12 +2712,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
       else if (tau_spectra_rank == 2) { // legacy data with polarization averaged
         hsize_t dNdEtaudim[2];
-        H5LTget_dataset_info(xs_grp,"dNdEtauall", dNdEtaudim,nullptr,nullptr);
+        checkH5(H5LTget_dataset_info(xs_grp,"dNdEtauall", dNdEtaudim,nullptr,nullptr),"read the state from "+str);
         
         std::unique_ptr<double[]> dNdEtauall(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get());
+        checkH5(H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get()),"read the state from "+str);
         std::unique_ptr<double[]> dNdEtaulep(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get());
+        checkH5(H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get()),"read the state from "+str);
         
         for(unsigned int rho = 0; rho < nrhos; rho++){
           for( unsigned int e1 = 0; e1 < ne; e1++){
@@ -2733,11 +2745,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open user parameters group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
   istate = true;
@@ -2804,8 +2815,7 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
         }
       default:
         {
-          std::cerr << "nuSQUIDS::SetBodyTrack : unknown body/track" << std::endl;
-          exit(1);
+          throw std::runtime_error("nuSQUIDS::SetBodyTrack : unknown body/track");
         }
     }
 }
-- 
2.43.0


From b3c34464205fb315fa8df0b779aeb417542cfb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 52/63] fix: restore the basis and the neutrino sources, and
 everything which depends on the configuration of a restored state

---
 src/nuSQuIDS.cpp | 65 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index f2d1eac..40eb2a7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1794,6 +1794,10 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   checkH5(H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1),"write the state to "+str);
   auxint = static_cast<int>(iglashow);
   checkH5(H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1),"write the state to "+str);
+  auxint = static_cast<int>(basis);
+  checkH5(H5LTset_attribute_int(group, "basic", "basis", &auxint, 1),"write the state to "+str);
+  auxint = static_cast<int>(enable_neutrino_sources);
+  checkH5(H5LTset_attribute_int(group, "basic", "neutrino_sources", &auxint, 1),"write the state to "+str);
   double auxt = Get_t();
   checkH5(H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1),"write the state to "+str);
   double auxt_ini = Get_t_initial();
@@ -2157,6 +2161,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     tauregeneration=auxint;
   if(readOptionalAttribute(group, "basic", "glashow_resonance", auxint))
     iglashow=auxint;
+  if(readOptionalAttribute(group, "basic", "basis", auxint))
+    basis=static_cast<Basis>(auxint);
+  if(readOptionalAttribute(group, "basic", "neutrino_sources", auxint))
+    enable_neutrino_sources=auxint;
 
   double squids_time;
   checkH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read the state from "+str);
@@ -2222,14 +2230,20 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
     init(E_range,squids_time_initial);
   }
+  // the terms to be considered and the arrays may belong to a previous configuration
+  Set_NonCoherentRhoTerms(iinteraction);
+  Set_OtherRhoTerms(iinteraction);
+  Set_NeutrinoSources(enable_neutrino_sources);
+  use_full_hamiltonian_for_projector_evolution = false;
+  interaction_cache=marray<squids::SU_vector,2>(); //refers to the store
+  interaction_cache_store.reset();
 
 
   // read and set mixing parameters
@@ -2270,7 +2284,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass and ioscillations)
+    EvolveProjectors(squids_time);
 
   // reading state
   checkH5(H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr),"read the state from "+str);
@@ -2301,12 +2316,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
       int_struct = iis;
       size_t rounded_ne=round_up_to_aligned(ne);
       nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
-      if(tauregeneration){
-        tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
-        tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
-      }
-      if(iglashow)
-        gr_factors.resize(std::vector<size_t>{rounded_ne});
+      //tau regeneration and the Glashow resonance may also be enabled later
+      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
+      gr_factors.resize(std::vector<size_t>{rounded_ne});
       interactions_initialized = true;
     }
   }
@@ -2366,6 +2379,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     tauregeneration=auxint;
   if(readOptionalAttribute(group, "basic", "glashow_resonance", auxint))
     iglashow=auxint;
+  if(readOptionalAttribute(group, "basic", "basis", auxint))
+    basis=static_cast<Basis>(auxint);
+  if(readOptionalAttribute(group, "basic", "neutrino_sources", auxint))
+    enable_neutrino_sources=auxint;
 
   double squids_time;
   checkH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read the state from "+str);
@@ -2432,14 +2449,20 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
     init(E_range,squids_time_initial);
   }
+  // the terms to be considered and the arrays may belong to a previous configuration
+  Set_NonCoherentRhoTerms(iinteraction);
+  Set_OtherRhoTerms(iinteraction);
+  Set_NeutrinoSources(enable_neutrino_sources);
+  use_full_hamiltonian_for_projector_evolution = false;
+  interaction_cache=marray<squids::SU_vector,2>(); //refers to the store
+  interaction_cache_store.reset();
 
   // read and set mixing parameters
   for( unsigned int i = 0; i < numneu; i++ ){
@@ -2479,7 +2502,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass and ioscillations)
+    EvolveProjectors(squids_time);
 
   // reading state
   checkH5(H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr),"read the state from "+str);
@@ -2733,13 +2757,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
     }
 
-    nc_factors.resize(std::vector<size_t>{nrhos,3,ne});
-    if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,ne});
-    }
-    if(iglashow)
-      gr_factors.resize(std::vector<size_t>{ne});
+    //tau regeneration and the Glashow resonance may also be enabled later
+    size_t rounded_ne=round_up_to_aligned(ne);
+    nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
+    tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+    tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
+    gr_factors.resize(std::vector<size_t>{rounded_ne});
 
     interactions_initialized = true;
   }
-- 
2.43.0


From 4366ae3a340adbc3a992d7690c2d3a5c597f5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 53/63] fix: report failures of saving and restoring
 nuSQUIDSAtm, and do not require overwriting

---
 include/nuSQuIDS/nuSQuIDS.h | 45 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index d47a777..60ff361 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1535,25 +1535,24 @@ class nuSQUIDSAtm {
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
 
-      hid_t file_id,root_id;
-      hid_t dset_id;
+      {
       // create HDF5 file
-      if(overwrite)
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-      else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
+      H5File file_id(H5Fcreate (filename.c_str(), overwrite ? H5F_ACC_TRUNC : H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
       if (file_id < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
-      root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
+      H5Handle root_id(H5Gopen(file_id, "/",H5P_DEFAULT),H5Gclose,"open HDF5 group");
+      herr_t dset_id;
 
       // write the zenith range
       hsize_t costhdims[1]={costh_array.extent(0)};
       dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
+      if(dset_id < 0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write the zenith angles to " + filename + ".");
       hsize_t energydims[1]={enu_array.extent(0)};
       dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
-
-      H5Gclose (root_id);
-      H5Fclose (file_id);
+      if(dset_id < 0 or H5Fflush(file_id,H5F_SCOPE_GLOBAL) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write the energies to " + filename + ".");
+      }
 
       unsigned int i = 0;
       for(const BaseSQUIDS& nsq : nusq_array){
@@ -1569,37 +1568,39 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
-      hid_t file_id,group_id,root_id;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to open file: " + hdf5_filename + ". No such file or directory");
-      root_id = H5Gopen(file, "/",H5P_DEFAULT);
-      group_id = root_id;
+      H5Handle group_id(H5Gopen(file, "/",H5P_DEFAULT),H5Gclose,"open HDF5 group");
 
       // read the zenith range dimension
       hsize_t costhdims[1];
-      H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr);
+      if(H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Failed to read the zenith angles from " + hdf5_filename);
 
-      double data[costhdims[0]];
-      H5LTread_dataset_double(group_id, "zenith_angles", data);
+      std::vector<double> data(costhdims[0]);
+      if(H5LTread_dataset_double(group_id, "zenith_angles", data.data()) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Failed to read the zenith angles from " + hdf5_filename);
       costh_array.resize(std::vector<size_t> {static_cast<unsigned long>(costhdims[0])});
       for (unsigned int i = 0; i < costhdims[0]; i ++)
         costh_array[i] = data[i];
 
       hsize_t energydims[1];
-      H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr);
-
-      double enu_data[energydims[0]];
-      H5LTread_dataset_double(group_id, "energy_range", enu_data);
+      if(H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Failed to read the energies from " + hdf5_filename);
+
+      std::vector<double> enu_data(energydims[0]);
+      if(H5LTread_dataset_double(group_id, "energy_range", enu_data.data()) < 0)
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Failed to read the energies from " + hdf5_filename);
+      // the object cannot be used unless everything could be read
+      iinistate = false;
       enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});log_enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});
       for (unsigned int i = 0; i < energydims[0]; i ++){
         enu_array[i] = enu_data[i];
         log_enu_array[i] = log(enu_data[i]);
       }
 
-      H5Gclose(root_id);
-
       // resize apropiately the nuSQUIDSAtm container vector
       nusq_array.clear();
       nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
-- 
2.43.0


From 09462ed479c41f1fd863919de6c2383a2580da32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 54/63] fix: evaluate the flavor of nuSQUIDSAtm with a single
 zenith angle or energy

---
 include/nuSQuIDS/nuSQuIDS.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 60ff361..c198ba1 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1374,6 +1374,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1); //there may be only one
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1389,6 +1390,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1399,9 +1401,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1418,19 +1420,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
 
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1467,6 +1471,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,costh_array.size()-1); //there may be only one
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1482,15 +1487,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,enu_array.size()-1);
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1509,20 +1515,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
       double f1=1-f2;
       
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      if(cth_P==cth_M)
+        return(phiM);
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 7a893a6ebc533ec5bd5d33787cb1147b57cb64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 55/63] fix: initialize the interactions before the Hamiltonian
 is computed with them

---
 src/nuSQuIDS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 40eb2a7..27dc45e 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1724,6 +1724,10 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if (iinteraction and not interactions_initialized)
+    InitializeInteractions();
+  if (not ioscillations and iinteraction)
+    SetUpInteractionCache();
   PreDerive(Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
-- 
2.43.0


From 89b962241b6d1963f3647edfdc60d6feb27d6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 56/63] fix: adapt the trajectories of nuSQUIDSAtm to the Earth
 model

---
 include/nuSQuIDS/nuSQuIDS.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index c198ba1..1a9a691 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1922,9 +1922,17 @@ class nuSQUIDSAtm {
     /// \brief Stes Earth object to be use.
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
+      if(!earth)
+        throw std::runtime_error("nuSQUIDSAtm::Error::The Earth model is a NULL pointer");
+      // the trajectories depend on the geometry of the Earth model
+      std::vector<std::shared_ptr<EarthAtm::Track>> tracks;
+      for(unsigned int i=0; i<nusq_array.size(); i++)
+        tracks.push_back(std::make_shared<EarthAtm::Track>(earth->MakeTrackWithCosine(costh_array[i])));
       earth_atm=earth;
-      for(BaseSQUIDS& nsq : nusq_array){
-        nsq.Set_Body(earth);
+      track_array=std::move(tracks);
+      for(unsigned int i=0; i<nusq_array.size(); i++){
+        nusq_array[i].Set_Body(earth_atm);
+        nusq_array[i].Set_Track(track_array[i]);
       }
     }
   
-- 
2.43.0


From 4fc4b9d4dcdbd8c6d79664c51a07d7406752ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 57/63] fix: report failures which appear when the data sets of
 a state are closed

---
 src/nuSQuIDS.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 27dc45e..17fc403 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1900,6 +1900,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       if(err<0)
         throw std::runtime_error("Failed to write data to HDF5 dataset (targets)");
       addH5Attribute<std::string>(dsetTargets,"Description","PDG Codes for target matter types");
+      //data may only reach the file when the dataset is closed
+      checkH5(dsetTargets.close(),"write the state to "+str);
     }
     { // total crosssections
       hsize_t XSdim[4] {nTargets, nrhos, numneu, ne};
@@ -1978,6 +1980,10 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       addH5Attribute<std::string>(dsetSigmaCC,"Description","Tabulated total cross sections for charged-current interactions");
       addH5Attribute<std::string>(dsetSigmaNC,"Description","Tabulated total cross sections for neutral-current interactions");
       addH5Attribute<std::string>(dsetSigmaGR,"Description","Tabulated total cross sections for Glashow resonance interactions");
+      //data may only reach the file when the dataset is closed
+      checkH5(dsetSigmaCC.close(),"write the state to "+str);
+      checkH5(dsetSigmaNC.close(),"write the state to "+str);
+      checkH5(dsetSigmaGR.close(),"write the state to "+str);
     }
 
     { // differential crossections
@@ -2054,6 +2060,10 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       addH5Attribute<std::string>(dsetDSigmaCC,"Description","Tabulated differential cross sections for charged-current interactions");
       addH5Attribute<std::string>(dsetDSigmaNC,"Description","Tabulated differential cross sections for neutral-current interactions");
       addH5Attribute<std::string>(dsetDSigmaGR,"Description","Tabulated differential cross sections for Glashow resonance interactions");
+      //data may only reach the file when the dataset is closed
+      checkH5(dsetDSigmaCC.close(),"write the state to "+str);
+      checkH5(dsetDSigmaNC.close(),"write the state to "+str);
+      checkH5(dsetDSigmaGR.close(),"write the state to "+str);
     }
 
     { // tau decay data
@@ -2104,6 +2114,9 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       
       addH5Attribute<std::string>(dNdEtauall,"Description","Tabulated tau decay specrum for all channels");
       addH5Attribute<std::string>(dNdEtaulep,"Description","Tabulated tau decay specrum for leptonic channels");
+      //data may only reach the file when the dataset is closed
+      checkH5(dNdEtauall.close(),"write the state to "+str);
+      checkH5(dNdEtaulep.close(),"write the state to "+str);
     }
   }
 
-- 
2.43.0


From 518cf82fbdf42cb61482c782a65d7e11979119e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 58/63] fix: restoring SunASnu trajectories of early files used
 the final position as impact parameter

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 17fc403..3bdcdcf 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2842,7 +2842,8 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
       case 6:
         {
           body = std::make_shared<SunASnu>();
-          track = std::make_shared<SunASnu::Track>(track_params[0],track_params[1]);
+          // track_params[1] is the final position, track_params[2] corresponds to the impact parameter
+          track = std::make_shared<SunASnu::Track>(track_params[0],track_params[2]);
           break;
         }
       case 7:
-- 
2.43.0


From e490980ed32f8743a489312ab3e0e74eee4727ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 59/63] fix: zenith nodes equal to six digits collided when
 saving an ensemble

---
 include/nuSQuIDS/nuSQuIDS.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 1a9a691..de33b70 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1533,6 +1533,18 @@ class nuSQUIDSAtm {
       return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
+    /// \brief Name of the HDF5 group in which the state of a zenith node is stored.
+    /// @param i Index of the node.
+    /// \details The cosine of the zenith angle, and the index if an earlier node has the same when rounded.
+    std::string GetNodeGroupName(unsigned int i) const{
+      const std::string name = "/costh_"+std::to_string(costh_array[i]);
+      for(unsigned int j = 0; j < i; j++){
+        if("/costh_"+std::to_string(costh_array[j]) == name)
+          return name+"_"+std::to_string(i);
+      }
+      return name;
+    }
+
     /// \brief Writes the object into an HDF5 file.
     /// @param hdf5_filename Filename of the HDF5 into which save the object.
     /// \details All contents are saved to the \c root of the HDF5 file.
@@ -1566,7 +1578,7 @@ class nuSQUIDSAtm {
       for(const BaseSQUIDS& nsq : nusq_array){
         // use only the first one to write the cross sections on /crosssections
         // the last false is because the HDF5 file has already been created, should not overwrite 
-        nsq.WriteStateHDF5(filename,"/costh_"+std::to_string(costh_array[i]),i==0,"crosssections",false);
+        nsq.WriteStateHDF5(filename,GetNodeGroupName(i),i==0,"crosssections",false);
         i++;
       }
     }
@@ -1617,12 +1629,12 @@ class nuSQUIDSAtm {
       for(BaseSQUIDS& nsq : nusq_array){
         if(i==0){
           // read the cross sections stored in /crosssections
-          nsq.ReadStateHDF5(hdf5_filename,"/costh_"+std::to_string(costh_array[i]),"crosssections");
+          nsq.ReadStateHDF5(hdf5_filename,GetNodeGroupName(i),"crosssections");
           if(nsq.iinteraction)
             int_struct = nsq.GetInteractionStructure();
         } else {
           // re-use the shared cross sections
-          nsq.ReadStateHDF5Internal(hdf5_filename,"/costh_"+std::to_string(costh_array[i]),int_struct);
+          nsq.ReadStateHDF5Internal(hdf5_filename,GetNodeGroupName(i),int_struct);
         }
         i++;
       }
-- 
2.43.0


From 2d2fa8e015ec36e6502fd0234b06d7f11548b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 60/63] fix: evaluating flavours, types or nodes which are not
 there read outside the arrays

---
 include/nuSQuIDS/nuSQuIDS.h | 18 +++++++++++++-----
 src/nuSQuIDS.cpp            | 38 +++++++++++++++++++++++++++++--------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index de33b70..92993da 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1358,6 +1358,10 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if( rho >= nusq_array.front().GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate rho != 0 in this NT mode.");
+      if( flv >= nusq_array.front().GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Flavor index greater than number of initialized flavors.");
       
       if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
@@ -1455,6 +1459,10 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(not ( rho == 0 or rho == 1))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      if( rho >= nusq_array.front().GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Cannot evaluate rho != 0 in this NT mode.");
+      if( flv >= nusq_array.front().GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Flavor index greater than number of initialized flavors.");
       
       if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
@@ -1724,7 +1732,7 @@ class nuSQUIDSAtm {
     /// \param h initial step size
     /// \param idx energy node index
     void Set_h(double h, unsigned int idx){
-      nusq_array[idx].Set_h(h);
+      GetnuSQuIDS(idx).Set_h(h);
     }
   
     /// \brief Set the maximum integration step size
@@ -1738,7 +1746,7 @@ class nuSQUIDSAtm {
     /// \param h maximum step size
     /// \param idx energy node index
     void Set_h_max(double h, unsigned int idx){
-      nusq_array[idx].Set_h_max(h);
+      GetnuSQuIDS(idx).Set_h_max(h);
     }
   
     /// \brief Set the minimum integration step size
@@ -1752,7 +1760,7 @@ class nuSQUIDSAtm {
     /// \param h minimum step size
     /// \param idx energy node index
     void Set_h_min(double h, unsigned int idx){
-      nusq_array[idx].Set_h_min(h);
+      GetnuSQuIDS(idx).Set_h_min(h);
     }
 
     /// \brief Set the allowed absolute numerical error
@@ -1766,7 +1774,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_abs_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_abs_error(eps);
+      GetnuSQuIDS(idx).Set_abs_error(eps);
     }
 
     /// \brief Set the allowed relative numerical error
@@ -1780,7 +1788,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_rel_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_rel_error(eps);
+      GetnuSQuIDS(idx).Set_rel_error(eps);
     }
 
     /// \brief Sets the GSL solver
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 3bdcdcf..804fa7c 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1501,21 +1501,25 @@ size_t nuSQUIDS::GetNumE() const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1527,8 +1531,10 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1542,8 +1548,10 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
@@ -1557,8 +1565,12 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
 double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
@@ -1567,8 +1579,12 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
 double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
+  if ( rho >= nrhos )
     throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if( flv >= nsun )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
@@ -1724,6 +1740,12 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if (body == nullptr or track == nullptr)
+    throw std::runtime_error("nuSQUIDS::Error::Body or trajectory not initialized");
+  if (ei >= ne)
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
+  if (rho >= nrhos)
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
   if (iinteraction and not interactions_initialized)
     InitializeInteractions();
   if (not ioscillations and iinteraction)
-- 
2.43.0


From 0761b0fd8f313394b85aca17ceab715a6d7c500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 61/63] fix: GetHamiltonian counted the vacuum Hamiltonian
 twice in the mass basis

HI already includes H0 in the mass basis, which is also the basis after
an evolution in constant density mode.
---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 804fa7c..4359507 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1751,6 +1751,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (not ioscillations and iinteraction)
     SetUpInteractionCache();
   PreDerive(Get_t());
+  if (basis == mass) // HI includes H0 in this basis
+    return HI(ei,rho,Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
 
-- 
2.43.0


From 700e9daeb70ce7b783e96d555825a9fd41a3bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:45 +0000
Subject: [PATCH 62/63] fix: sign and size of the neutral current potential in
 matter without electrons

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 4359507..d4c54b1 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -351,7 +351,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density;
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From 5498d45247df8a40313c75dc5a698f0e6313d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 63/63] fix: evaluation of an ensemble evolved in the mass
 basis rotated the states twice

---
 include/nuSQuIDS/nuSQuIDS.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 92993da..6567f7b 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1421,7 +1421,10 @@ class nuSQUIDSAtm {
   #endif
       storage_type storage(H0_at_enu.Dim());
       
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
+      if(nusq_array[0].basis == mass) // the states have been evolved in full
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
       double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
@@ -1517,10 +1520,14 @@ class nuSQUIDSAtm {
       static SQUIDS_THREAD_LOCAL
   #endif
       storage_type storage(H0_at_enu.Dim());
-      // preevolution buffer
-      std::unique_ptr<double[]> evol_buffer(new double[H0_at_enu.GetEvolveBufferSize()]);
-      H0_at_enu.PrepareEvolve(evol_buffer.get(),t_inter,scale,avr);
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
+      if(nusq_array[0].basis == mass) // the states have been evolved in full
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else{
+        // preevolution buffer
+        std::unique_ptr<double[]> evol_buffer(new double[H0_at_enu.GetEvolveBufferSize()]);
+        H0_at_enu.PrepareEvolve(evol_buffer.get(),t_inter,scale,avr);
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
+      }
       
       //coefficients for energy interpolation
       double f2=loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]);
-- 
2.43.0

