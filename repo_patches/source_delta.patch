From 75edd8d2b010c05638a38f0ba252d12253560e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 01/74] fix: parallel_transform over two ranges took the second
 half of the second input from the first range

---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..a6401c5 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From fb81eccf135104c76e77f7e844ca2b9d1a3c061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 02/74] fix: parallel_search missed matches across a cut (the
 needle's begin was taken from its end)

---
 boost/asynchronous/algorithm/parallel_search.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..67ccf40 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -60,9 +60,9 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -83,8 +83,11 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                         auto itbeg = beg1;
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // a match across the cut begins at most dist2-1 elements before it and ends at most dist2-1 elements after it
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto overlap = dist2 > 0 ? dist2 - 1 : 0;
+                                        std::advance(itbeg, dist1 > overlap ? dist1 - overlap : 0);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 6ee057e0b2babb425f95204114ab8cdd7c0ee679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 03/74] fix: parallel_find_end missed matches across a cut (the
 needle's begin was taken from its end)

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..78dc9aa 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -60,9 +60,9 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
@@ -84,8 +84,11 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
 
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        // a match across the cut begins at most dist2-1 elements before it and ends at most dist2-1 elements after it
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto overlap = dist2 > 0 ? dist2 - 1 : 0;
+                                        std::advance(itbeg, dist1 > overlap ? dist1 - overlap : 0);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 71de6f4add7c95be206b91e713c14698ab88e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 04/74] fix: parallel_search_n looked outside the range around
 a cut

---
 boost/asynchronous/algorithm/parallel_search_n.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..506007d 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
@@ -77,8 +77,12 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        // a run across the cut begins at most count-1 elements before it and ends at most count-1 elements after it
+                                        auto dist1 = std::distance(beg1,it);
+                                        auto dist2 = static_cast<decltype(dist1)>(count);
+                                        auto overlap = dist2 > 0 ? dist2 - 1 : 0;
+                                        std::advance(itbeg, dist1 > overlap ? dist1 - overlap : 0);
+                                        boost::asynchronous::detail::safe_advance(itend, overlap, end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From 8b992b5d73878d3327b00ba7f8031c8317dab856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 05/74] fix: parallel_is_partitioned read the first element of
 an empty range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..d129dd4 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -138,6 +138,12 @@ struct parallel_is_partitioned_helper: public boost::asynchronous::continuation_
         boost::asynchronous::continuation_result<bool> task_res = this_task_result();
         try
         {
+            if (beg_ == end_)
+            {
+                // an empty range is partitioned
+                task_res.set_value(true);
+                return;
+            }
             boost::asynchronous::create_callback_continuation_job<Job>(
                         // called when subtasks are done, set our result
                         [task_res]
-- 
2.43.0


From f10b1961355a6de72d96f0ace5568397f93bf707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 06/74] fix: parallel_lexicographical_compare let a later chunk
 overrule an earlier difference and cut the ranges at different offsets

---
 .../parallel_lexicographical_compare.hpp      | 115 +++++++++---------
 1 file changed, 58 insertions(+), 57 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..9014ff4 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -11,6 +11,7 @@
 #define BOOST_ASYNCHRONOUS_PARALLEL_LEXICOGRAPHICAL_COMPARE_HPP
 
 #include <algorithm>
+#include <functional>
 #include <utility>
 #include <type_traits>
 #include <iterator>
@@ -33,18 +34,19 @@ namespace boost { namespace asynchronous
 namespace detail
 {
 // version for iterators
+// compares both ranges chunk by chunk: < 0 if the first one is less, > 0 if the second one is less, 0 if equivalent
 template <class Iterator1, class Iterator2, class Func,class Job>
-struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
+struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<int>
 {
-    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
+    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
-        : boost::asynchronous::continuation_task<bool>(task_name)
+        : boost::asynchronous::continuation_task<int>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
         ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
-        boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        boost::asynchronous::continuation_result<int> task_res = this->this_task_result();
         try
         {
             // advance up to cutoff
@@ -53,22 +55,41 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_,func_));
+                it1 = beg1_;
+                it2 = beg2_;
+                for (; it1 != end1_ && it2 != end2_; ++it1, ++it2)
+                {
+                    if (func_(*it1,*it2))
+                    {
+                        task_res.set_value(-1);
+                        return;
+                    }
+                    if (func_(*it2,*it1))
+                    {
+                        task_res.set_value(1);
+                        return;
+                    }
+                }
+                task_res.set_value(it1 != end1_ ? 1 : (it2 != end2_ ? -1 : 0));
             }
             else
             {
+                // cut both ranges at the same distance
+                auto dist = (std::min)(static_cast<long>(std::distance(beg1_,it1)),static_cast<long>(std::distance(beg2_,it2)));
+                it1 = beg1_;
+                it2 = beg2_;
+                std::advance(it1,dist);
+                std::advance(it2,dist);
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res](std::tuple<boost::asynchronous::expected<int>,boost::asynchronous::expected<int>> res) mutable
                             {
                                 try
                                 {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
+                                    int r1 = std::get<0>(res).get();
+                                    int r2 = std::get<1>(res).get();
+                                    // the first difference decides
+                                    task_res.set_value(r1 != 0 ? r1 : r2);
                                 }
                                 catch(...)
                                 {
@@ -76,11 +97,11 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
                                 }
                             },
                             // recursive tasks
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
                                     (beg1_,it1,beg2_,it2,func_,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper<Iterator1,Iterator2,Func,Job>
+                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
                                     (it1,end1_,it2,end2_,func_,cutoff_,this->get_name(),prio_)
-                );
+                   );
             }
         }
         catch(...)
@@ -96,55 +117,36 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
     long cutoff_;
     std::size_t prio_;
 };
-template <class Iterator1, class Iterator2,class Job>
-struct parallel_lexicographical_compare_helper2: public boost::asynchronous::continuation_task<bool>
+template <class Iterator1, class Iterator2, class Func,class Job>
+struct parallel_lexicographical_compare_helper: public boost::asynchronous::continuation_task<bool>
 {
-    parallel_lexicographical_compare_helper2(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2,long cutoff,
+    parallel_lexicographical_compare_helper(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,Iterator2 end2, Func func,long cutoff,
                         const std::string& task_name, std::size_t prio)
         : boost::asynchronous::continuation_task<bool>(task_name)
         , beg1_(beg1),end1_(end1), beg2_(beg2),end2_(end2)
-        , cutoff_(cutoff),prio_(prio)
+        ,func_(std::move(func)),cutoff_(cutoff),prio_(prio)
     {}
     void operator()()
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
         try
         {
-            // advance up to cutoff
-            Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
-            // if not at end, recurse, otherwise execute here
-            if ((it1 == end1_) || (it2 == end2_))
-            {
-                task_res.set_value(std::lexicographical_compare(beg1_,end1_,beg2_,end2_));
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+            boost::asynchronous::create_callback_continuation_job<Job>(
+                        // called when subtasks are done, set our result
+                        [task_res](std::tuple<boost::asynchronous::expected<int>> res) mutable
+                        {
+                            try
                             {
-                                try
-                                {
-                                    bool r1 = std::get<0>(res).get();
-                                    bool r2 = std::get<1>(res).get();
-                                    if (r1)
-                                        task_res.set_value(true);
-                                    else
-                                        task_res.set_value(r2);
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (beg1_,it1,beg2_,it2,cutoff_,this->get_name(),prio_),
-                            parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                                    (it1,end1_,it2,end2_,cutoff_,this->get_name(),prio_)
-                );
-            }
+                                task_res.set_value(std::get<0>(res).get() < 0);
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
+                        },
+                        parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Func,Job>
+                                (beg1_,end1_,beg2_,end2_,func_,cutoff_,this->get_name(),prio_)
+               );
         }
         catch(...)
         {
@@ -155,12 +157,11 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
     Iterator1 end1_;
     Iterator2 beg2_;
     Iterator2 end2_;
+    Func func_;
     long cutoff_;
     std::size_t prio_;
 };
 }
-
-// versions for iterators
 template <class Iterator1,class Iterator2, class Func,
           class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
 boost::asynchronous::detail::callback_continuation<bool,Job>
@@ -186,8 +187,8 @@ parallel_lexicographical_compare(Iterator1 beg1, Iterator1 end1,Iterator2 beg2,I
 #endif
 {
     return boost::asynchronous::top_level_callback_continuation_job<bool,Job>
-            (boost::asynchronous::detail::parallel_lexicographical_compare_helper2<Iterator1,Iterator2,Job>
-                (beg1,end1,beg2,end2,cutoff,task_name,prio));
+            (boost::asynchronous::detail::parallel_lexicographical_compare_helper<Iterator1,Iterator2,std::less<>,Job>
+                (beg1,end1,beg2,end2,std::less<>(),cutoff,task_name,prio));
 }
 }}
 
-- 
2.43.0


From b037aeb1b0d4a111935c47172d77d79a16aaac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 07/74] fix: parallel_nth_element left the n-th position
 unordered when the partition point fell on it

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..fbff88f 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,7 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From 15fdd2f219148ec365e946ec17c1577b60875cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 08/74] fix: parallel_partial_sort recursed forever when middle
 was the beginning of the range

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..6a88114 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -42,6 +42,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         try
         {
+            // nothing to sort before middle, a partition could not make progress
+            if (beg_ == middle_)
+            {
+                task_res.set_value();
+                return;
+            }
             // if close enough, start sorting
             auto func(std::move(func_));
             auto cutoff = cutoff_;
-- 
2.43.0


From 964b469f2e328b2736b2cefeda328f3ff4bd283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 09/74] fix: parallel_merge swapped its ranges when the second
 was longer and lost the order of equivalent elements

---
 .../asynchronous/algorithm/parallel_merge.hpp | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..a9f4213 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -47,6 +47,8 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             }
             else
             {
+                // cut the longer range in the middle, the other one so that equivalent elements keep their order
+                // (those of the first range come before those of the second)
                 if (length1 >= length2)
                 {
                     if (length1 == 0)
@@ -54,16 +56,21 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    auto it1 = (beg1_+ length1/2);
+                    auto it2 = std::lower_bound(beg2_,end2_, *it1,func_);
+                    auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it1;
+                    helper(it1,it1+1,it2,it2,it3,task_res);
                 }
                 else
                 {
-                    if (length2 == 0)
-                    {
-                        task_res.set_value();
-                        return;
-                    }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    auto it2 = (beg2_+ length2/2);
+                    auto it1 = std::upper_bound(beg1_,end1_, *it2,func_);
+                    auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
+                    // TODO move?
+                    *it3 = *it2;
+                    helper(it1,it1,it2,it2+1,it3,task_res);
                 }
             }
         }
@@ -72,14 +79,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             task_res.set_exception(std::current_exception());
         }
     }
-    template <class It1, class It2, class OutIt>
-    void helper(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    // merges what is before the cut, and what is after it, at both sides of the element already written to out
+    void helper(Iterator1 last1, Iterator1 next1, Iterator2 last2, Iterator2 next2, OutIterator out,boost::asynchronous::continuation_result<void> task_res)const
     {
-        auto it1 = (beg1+ (end1 - beg1)/2);
-        auto it2 = std::lower_bound(beg2,end2, *it1,func_);
-        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
-        // TODO move?
-        *it3 = *it1;
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +100,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1_,last1,beg2_,last2,out_,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (next1,end1_,next2,end2_,out+1,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From 7c0c6fe34c14702a5e0bf4976bfce98f33cdb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 10/74] fix: parallel_stable_sort reversed the order of
 equivalent elements of descending ranges

---
 .../algorithm/parallel_is_sorted.hpp             | 13 +++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_sorted.hpp b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
index 92cb107..2638378 100644
--- a/boost/asynchronous/algorithm/parallel_is_sorted.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
@@ -106,6 +106,19 @@ parallel_is_sorted(Iterator beg, Iterator end, Func func,long cutoff,
 
 namespace detail
 {
+    // no two neighbours in order or equivalent: only such a range can be sorted by reversing it without
+    // changing the order of equivalent elements
+    template <class Func>
+    struct strictly_reverse_sorted
+    {
+        strictly_reverse_sorted(Func f):func_(std::move(f)){}
+        template <class T>
+        bool operator ()(T const& lhs, T const& rhs)const
+        {
+            return !func_(lhs,rhs);
+        }
+        Func func_;
+    };
     template <class Func>
     struct reverse_sorted
     {
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..3c650fd 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +189,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (std::is_sorted(beg_,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -229,8 +229,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             task_res.set_value();
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<Iterator,boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
@@ -558,7 +558,7 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +761,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -879,8 +879,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             task_res.set_value(std::move(*range));
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<decltype(boost::begin(*range_)),Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<decltype(boost::begin(*range_)),boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,range,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
-- 
2.43.0


From d782fb7b40ec350027a2321af515a0429e01fe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 11/74] fix: threadsafe_list::pop could miss the notification
 of a push and block although a job was waiting

---
 boost/asynchronous/queue/threadsafe_list.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..2b63441 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,6 +79,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a thread which saw an empty list is now waiting and will not miss the notification
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
     void push(JOB && j)
@@ -91,6 +95,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a thread which saw an empty list is now waiting and will not miss the notification
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
     // todo remove when type_erasure supports rvalue ref
@@ -104,6 +112,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a thread which saw an empty list is now waiting and will not miss the notification
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
 
-- 
2.43.0


From 5faa2634b548f74c4883d748c62c48733303fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 12/74] fix:
 stealing_multiqueue_threadpool_scheduler::execute_one_job reports whether it
 executed a job

The inner declaration hid popped, so the function always returned false: at
shutdown a worker executed one job and dropped the rest of its queue, and failed
jobs were not recorded in the diagnostics.
---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..99d1b51 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From 7eb500bbf8fb892ee4703c20fdfbff19e766df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 13/74] fix: channel_topic::matches rejected topics with an
 empty element, even equal ones

A leading or doubled separator yields an empty element, which was taken for the
end of the published topic, so such a topic did not match itself.
---
 boost/asynchronous/notification/topics.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/notification/topics.hpp b/boost/asynchronous/notification/topics.hpp
index f3e711d..a2812cf 100644
--- a/boost/asynchronous/notification/topics.hpp
+++ b/boost/asynchronous/notification/topics.hpp
@@ -120,15 +120,15 @@ namespace boost { namespace asynchronous { namespace subscription
 
             while (!current_view.empty()) 
             {
-                auto input_token = next_token(input_view);
-                auto current_token = next_token(current_view);
-
-                if (input_token.empty()) 
+                if (input_view.empty()) 
                 {
                     // input path is shorter than own
                     return false;
                 }
 
+                auto input_token = next_token(input_view);
+                auto current_token = next_token(current_view);
+
                 if (!((current_token.starts_with(Wildcard) && current_token.size() == 1) || current_token == input_token))
                 {
                     return false;
-- 
2.43.0


From 9df2d69225912e4b34f636daba1dc04133aaa124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 14/74] fix: copying an expected of a non-default-constructible
 type that holds an exception dereferenced null

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..f06d48b 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(!!rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From 80ed989f314794e10200d5fc1f8b6543c68dabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 15/74] fix: find_cutoff overflowed for integral positions and
 large cutoffs and then split a single-element range forever

---
 boost/asynchronous/algorithm/detail/safe_advance.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/detail/safe_advance.hpp b/boost/asynchronous/algorithm/detail/safe_advance.hpp
index 4c8219d..9203a32 100644
--- a/boost/asynchronous/algorithm/detail/safe_advance.hpp
+++ b/boost/asynchronous/algorithm/detail/safe_advance.hpp
@@ -72,7 +72,8 @@ Iterator find_cutoff(Iterator it, Distance n, Iterator end, typename std::enable
     // handle cutoff 1
     if (n == 1)
         n=2;
-    if (it + n < end)
+    // not it + n < end, which overflows for large cutoffs
+    if (end - it > n)
     {
         return it + (end-it)/2;
     }
-- 
2.43.0


From 386ac9daae9c631da78b7e9a5f7cf6e9db89fe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:52 +0000
Subject: [PATCH 16/74] fix: difference of lazy_irange iterators with narrow
 unsigned positions was wrong when negative

---
 boost/asynchronous/helpers/lazy_irange.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/helpers/lazy_irange.hpp b/boost/asynchronous/helpers/lazy_irange.hpp
index 244ddb5..2e96c13 100644
--- a/boost/asynchronous/helpers/lazy_irange.hpp
+++ b/boost/asynchronous/helpers/lazy_irange.hpp
@@ -15,6 +15,7 @@
 #include <iterator>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 
 
 namespace boost { namespace asynchronous {
@@ -80,7 +81,9 @@ public:
 	
 	template <class Q, class R, class S>
 	long operator-(thing_iterator<Q, R, S> const& o) const { // - (binary, with lri)
-		return pos - o.pos;
+		// a difference of narrow unsigned positions must not wrap around before it is widened
+		typedef typename std::conditional<(sizeof(NumberType) < sizeof(long)), long, NumberType>::type wide;
+		return static_cast<wide>(pos) - static_cast<wide>(o.pos);
 	}
 	
 	template <class Q, class R, class S>
-- 
2.43.0


From e4a410b1845f3326a8c68629d5ed674f67496da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 17/74] fix: queue_converter::get_queue_size reported the
 maximum size

---
 boost/asynchronous/queue/queue_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/queue_converter.hpp b/boost/asynchronous/queue/queue_converter.hpp
index 42cd9bc..6147929 100644
--- a/boost/asynchronous/queue/queue_converter.hpp
+++ b/boost/asynchronous/queue/queue_converter.hpp
@@ -63,7 +63,7 @@ public:
     }
     virtual std::vector<std::size_t> get_queue_size()const
     {
-        return m_from_queue->get_max_queue_size();
+        return m_from_queue->get_queue_size();
     }
     virtual std::vector<std::size_t> get_max_queue_size()const
     {
-- 
2.43.0


From ee3053717d0417f7f2902837c6d617508a1c06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 18/74] fix: lockfree_queue and lockfree_stack leaked the jobs
 still waiting when they were destroyed

---
 boost/asynchronous/queue/lockfree_queue.hpp | 9 +++++++++
 boost/asynchronous/queue/lockfree_stack.hpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/boost/asynchronous/queue/lockfree_queue.hpp b/boost/asynchronous/queue/lockfree_queue.hpp
index 18a9c94..20c08de 100644
--- a/boost/asynchronous/queue/lockfree_queue.hpp
+++ b/boost/asynchronous/queue/lockfree_queue.hpp
@@ -68,6 +68,15 @@ public:
 #else
     lockfree_queue(std::size_t size=16):m_queue(size){}
 #endif
+    ~lockfree_queue()
+    {
+        // jobs still waiting are owned by the queue
+        JOB* task = nullptr;
+        while (m_queue.pop(task))
+        {
+            delete task;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
 
     void push(JOB && j, std::size_t)
diff --git a/boost/asynchronous/queue/lockfree_stack.hpp b/boost/asynchronous/queue/lockfree_stack.hpp
index 9d30229..b1f4102 100644
--- a/boost/asynchronous/queue/lockfree_stack.hpp
+++ b/boost/asynchronous/queue/lockfree_stack.hpp
@@ -57,6 +57,15 @@ public:
 #else
     lockfree_stack(std::size_t size=16):m_queue(size){}
 #endif
+    ~lockfree_stack()
+    {
+        // jobs still waiting are owned by the stack
+        JOB* task = nullptr;
+        while (m_queue.pop(task))
+        {
+            delete task;
+        }
+    }
 #ifndef BOOST_NO_RVALUE_REFERENCES
     void push(JOB && j, std::size_t)
     {
-- 
2.43.0


From 79324d3b24f42b4a0494da7a03329acfc7d3fc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 19/74] fix: scans do not seed the chunk reduction with T(),
 which need not be neutral

---
 .../algorithm/parallel_exclusive_scan.hpp     | 18 +++++++---
 .../algorithm/parallel_inclusive_scan.hpp     | 36 ++++++++++++++-----
 .../parallel_transform_exclusive_scan.hpp     |  9 +++--
 .../parallel_transform_inclusive_scan.hpp     |  9 +++--
 4 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
index 3c4710e..33b89c9 100644
--- a/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_exclusive_scan.hpp
@@ -25,8 +25,13 @@ parallel_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -59,8 +64,13 @@ parallel_exclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
index a09e4a2..8ba0735 100644
--- a/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_inclusive_scan.hpp
@@ -28,8 +28,13 @@ parallel_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T init,Func
 {
     auto reduce = [f](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -62,8 +67,13 @@ parallel_inclusive_scan(Range&& range,OutRange&& out_range,T init,Func f,long cu
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -96,8 +106,13 @@ parallel_inclusive_scan(Range&& range,T init,Func f,long cutoff,
 {
     auto reduce = [f](decltype(boost::begin(range)) beg, decltype(boost::begin(range)) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
@@ -131,8 +146,13 @@ parallel_inclusive_scan(Range range,T init,Func f,long cutoff,
     auto reduce = [f](decltype(boost::begin(std::declval<typename Range::return_type>())) beg,
                       decltype(boost::begin(std::declval<typename Range::return_type>())) end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = *beg;
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , *beg);
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
index 8c6682c..c4a8b8f 100644
--- a/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_exclusive_scan.hpp
@@ -26,8 +26,13 @@ parallel_transform_exclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
diff --git a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
index 1d1d3db..641b47e 100644
--- a/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform_inclusive_scan.hpp
@@ -26,8 +26,13 @@ parallel_transform_inclusive_scan(Iterator beg, Iterator end, OutIterator out, T
 {
     auto reduce = [f,t](Iterator beg, Iterator end)
     {
-        T r = T();
-        for (;beg != end; ++beg)
+        // T() is not the neutral element of every function
+        if (beg == end)
+        {
+            return T();
+        }
+        T r = t(*beg);
+        for (++beg;beg != end; ++beg)
         {
             r = f(r , t(*beg));
         }
-- 
2.43.0


From 1a0ee838059ffbe2010695fdef1e19a4b7888a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 20/74] fix: parallel_flatten over iterators did not compile

---
 boost/asynchronous/algorithm/parallel_flatten.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_flatten.hpp b/boost/asynchronous/algorithm/parallel_flatten.hpp
index 169a4af..134c8cd 100644
--- a/boost/asynchronous/algorithm/parallel_flatten.hpp
+++ b/boost/asynchronous/algorithm/parallel_flatten.hpp
@@ -85,7 +85,7 @@ parallel_flatten(
             return boost::asynchronous::then(
                 boost::asynchronous::parallel_for(
                     static_cast<InnerSize>(0),
-                    outer_size,
+                    static_cast<InnerSize>(outer_size),
                     [outer_begin, offsets, results_container_begin](const InnerSize& index)
                     {
                         auto target_iterator = results_container_begin + offsets->operator[](index);
-- 
2.43.0


From a0728a83b5c21e7a99c2702c1f208e03d9cc9f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/74] fix: if_/else_if/else_/if_then_else lose an exception
 of the chosen branch and never finish

---
 boost/asynchronous/algorithm/if_else.hpp      | 27 ++++++++++++++++---
 boost/asynchronous/algorithm/if_then_else.hpp | 18 +++++++++++--
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
-- 
2.43.0


From 71c2b21a2f8b292e728fc4004cdafed1f357fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 22/74] fix: all_of finishes when several continuations fail
 and when it is given none

---
 boost/asynchronous/algorithm/all_of.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index a495427..30fc1e2 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -40,6 +40,8 @@ struct all_of_task_counter
 
     ResultTuple         values;
     std::atomic<size_t> task_count;
+    // only the first exception is forwarded
+    std::atomic<bool>   failed{false};
 };
 
 template <typename ResultVector>
@@ -52,6 +54,8 @@ struct all_of_vector_task_counter
 
     ResultVector        values;
     std::atomic<size_t> task_count;
+    // only the first exception is forwarded
+    std::atomic<bool>   failed{false};
 };
 
 template <typename... Continuations>
@@ -120,7 +124,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.exchange(true))
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -148,7 +153,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.exchange(true))
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -200,7 +206,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.exchange(true))
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
@@ -228,7 +235,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.exchange(true))
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
@@ -241,6 +249,11 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
         boost::asynchronous::continuation_result<return_type> task_res = this->this_task_result();
         auto task_counter = std::make_shared<task_counter_type>(continuations_.size());
 
+        if (continuations_.empty())
+        {
+            task_res.set_value(std::move(task_counter->values));
+            return;
+        }
         dispatch_all<>(task_counter, task_res);
     }
 
-- 
2.43.0


From e7f799c3bbc0cae1775efc95c7412325f5b74d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 23/74] fix: post_future of a void continuation reported
 success when the continuation failed

---
 boost/asynchronous/post.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..ef68858 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,8 @@ namespace detail
                 {
                     try
                     {
+                        // check that no exception
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From a8e1993fefa66ca4662f49cda7234274edfd2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 24/74] fix: post_future of a serializable continuation task
 replaced its exception by task_aborted_exception

---
 boost/asynchronous/post.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index ef68858..8009e33 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -490,7 +490,7 @@ namespace detail
             template <class Res>
             void operator()(std::tuple<Res>&& continuation_res)
             {
-                if(!std::get<0>(continuation_res).has_value())
+                if(!boost::asynchronous::is_ready(std::get<0>(continuation_res)))
                 {
                     boost::asynchronous::task_aborted_exception ta;
                     m_promise.set_exception(std::make_exception_ptr(ta));
-- 
2.43.0


From 127f4087e484d442dbe1646b1a360242d3b64dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:21 +0000
Subject: [PATCH 25/74] fix: parallel algorithms hang when a functor throws
 something not derived from std::exception

---
 .../asynchronous/algorithm/parallel_adjacent_find.hpp  |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp         |  2 +-
 .../asynchronous/algorithm/parallel_inner_product.hpp  |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp         |  4 ++--
 boost/asynchronous/algorithm/parallel_move.hpp         |  2 +-
 boost/asynchronous/algorithm/parallel_partition.hpp    |  2 +-
 boost/asynchronous/algorithm/parallel_transform.hpp    | 10 +++++-----
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..42b150e 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..1a9c1b1 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..76da740 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -664,7 +664,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..fadc7e8 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -65,7 +65,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -143,7 +143,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..7654c90 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..7678fa1 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch (...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index a6401c5..6c9179f 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From 0825cf0262ff1733359488586945412a9d3766df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:34 +0000
Subject: [PATCH 26/74] fix: continuation overloads of the algorithms and
 parallel_partition never finish when their inner algorithm fails

---
 .../parallel_geometry_intersection_of_x.hpp   |  18 ++-
 .../geometry/parallel_geometry_union_of_x.hpp |  18 ++-
 .../algorithm/parallel_all_of.hpp             |   9 +-
 .../algorithm/parallel_any_of.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_copy.hpp  |  18 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  18 ++-
 .../algorithm/parallel_find_all.hpp           |  18 ++-
 .../algorithm/parallel_find_end.hpp           |   9 +-
 .../algorithm/parallel_find_first_of.hpp      |   9 +-
 boost/asynchronous/algorithm/parallel_for.hpp |   9 +-
 .../asynchronous/algorithm/parallel_move.hpp  |  18 ++-
 .../algorithm/parallel_none_of.hpp            |   9 +-
 .../algorithm/parallel_partition.hpp          | 104 +++++++++--------
 .../algorithm/parallel_reduce.hpp             |  18 ++-
 .../algorithm/parallel_replace_copy.hpp       |  18 ++-
 .../algorithm/parallel_reverse.hpp            |  18 ++-
 .../algorithm/parallel_search.hpp             |   9 +-
 .../asynchronous/algorithm/parallel_sort.hpp  | 108 ++++++++++++++++--
 .../algorithm/parallel_sort_inplace.hpp       |  54 ++++++++-
 .../algorithm/parallel_stable_partition.hpp   |   9 +-
 20 files changed, 410 insertions(+), 90 deletions(-)

diff --git a/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp b/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
index f2597cb..982e97d 100644
--- a/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
+++ b/boost/asynchronous/algorithm/geometry/parallel_geometry_intersection_of_x.hpp
@@ -285,7 +285,14 @@ struct parallel_geometry_intersection_of_x_continuation_range_helper: public boo
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
@@ -331,7 +338,14 @@ struct parallel_geometry_intersection_of_x_continuation_range_helper<Continuatio
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
diff --git a/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp b/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
index 23fe044..76bfa26 100644
--- a/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
+++ b/boost/asynchronous/algorithm/geometry/parallel_geometry_union_of_x.hpp
@@ -280,7 +280,14 @@ struct parallel_geometry_union_of_x_continuation_range_helper: public boost::asy
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
@@ -326,7 +333,14 @@ struct parallel_geometry_union_of_x_continuation_range_helper<Continuation,Job,
                         (std::move(std::get<0>(continuation_res).get()),task_name,prio,cutoff,overlay_cutoff,partition_cutoff);
                 new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                 {
-                    task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    try
+                    {
+                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
             }
             catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 1a9c1b1..dd33714 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -294,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -483,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -468,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 78dc9aa..1996b28 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -206,7 +206,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..6a7b984 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 7654c90..5e99982 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -293,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index 7678fa1..84877fd 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -311,62 +311,67 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
+                try
+                {
+                    std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
+                    std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
+                    std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
 
-                std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
-                std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
-                std::list<std::pair<Iterator, Iterator>> r_rest = std::move(R.second);
-
-                auto it_left_plus_rtrue = sd->m_left;
-                auto it_left_plus_lmove = sd->m_left;
-                std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
-                std::advance(it_left_plus_lmove,sd->m_lmove.load());
+                    auto it_left_plus_rtrue = sd->m_left;
+                    auto it_left_plus_lmove = sd->m_left;
+                    std::advance(it_left_plus_rtrue,sd->m_rtrue.load());
+                    std::advance(it_left_plus_lmove,sd->m_lmove.load());
 
-                if (sd->m_lmove < sd->m_rtrue)
-                {
-                    for(auto& r : r_rest)
+                    if (sd->m_lmove < sd->m_rtrue)
                     {
-                        if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
-                        if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        for(auto& r : r_rest)
+                        {
+                            if(r.first < it_left_plus_rtrue) r.first = it_left_plus_rtrue;
+                            if(r.second < it_left_plus_rtrue) r.second = it_left_plus_rtrue;
+                        }
+                        l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
                     }
-                    l_rest.push_back(std::make_pair(it_left_plus_lmove,it_left_plus_rtrue));
-                }
-                if (sd->m_lmove > sd->m_rtrue)
-                {
-                    for(auto& l : l_rest)
+                    if (sd->m_lmove > sd->m_rtrue)
                     {
-                        if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
-                        if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        for(auto& l : l_rest)
+                        {
+                            if(l.first > it_left_plus_rtrue) l.first = it_left_plus_rtrue;
+                            if(l.second > it_left_plus_rtrue) l.second = it_left_plus_rtrue;
+                        }
+                        r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
                     }
-                    r_rest.push_back(std::make_pair(it_left_plus_rtrue,it_left_plus_lmove));
-                }
 
-                Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
-                while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
-                {
-                    if (rbs == rbe)
-                    {
-                        rbs = r_rest.front().first;
-                        rbe = r_rest.front().second;
-                        r_rest.pop_front();
-                    }
-                    if (lbs == lbe)
+                    Iterator lbs = sd->m_left, rbs = sd->m_right, lbe = sd->m_left, rbe = sd->m_right;
+                    while((!r_rest.empty() || rbs != rbe) && (!l_rest.empty() || lbs != lbe))
                     {
-                        lbs = l_rest.front().first;
-                        lbe = l_rest.front().second;
-                        l_rest.pop_front();
-                    }
+                        if (rbs == rbe)
+                        {
+                            rbs = r_rest.front().first;
+                            rbe = r_rest.front().second;
+                            r_rest.pop_front();
+                        }
+                        if (lbs == lbe)
+                        {
+                            lbs = l_rest.front().first;
+                            lbe = l_rest.front().second;
+                            l_rest.pop_front();
+                        }
 
-                    for(;;)
-                    {
-                        while (lbs < lbe && rel(*(lbs))) ++lbs;
-                        while (rbs < rbe && !rel(*(rbs))) ++rbs;
-                        if (lbs == lbe || rbs == rbe) break;
-                        std::swap(*lbs,*rbs);
+                        for(;;)
+                        {
+                            while (lbs < lbe && rel(*(lbs))) ++lbs;
+                            while (rbs < rbe && !rel(*(rbs))) ++rbs;
+                            if (lbs == lbe || rbs == rbe) break;
+                            std::swap(*lbs,*rbs);
+                        }
                     }
-                }
 
-                task_res.set_value(it_left_plus_rtrue);
-                return;
+                    task_res.set_value(it_left_plus_rtrue);
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
@@ -515,7 +520,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -540,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -206,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 67ccf40..b2e1617 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -205,7 +205,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 3c650fd..becae3e 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1075,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1136,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1172,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1219,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1269,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1401,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1408,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1511,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1505,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1552,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1602,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -316,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +377,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -413,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -460,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -510,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From c0c59c92b918d76ffbea56d7ab58fcc9bc2aa9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 27/74] fix: all_of/any_of/none_of, unique and iota hang when
 the functor throws in a posted chunk

---
 .../detail/parallel_all_of_helper.hpp         |  89 ++++++-----
 .../asynchronous/algorithm/parallel_iota.hpp  | 142 ++++++++++--------
 .../algorithm/parallel_unique.hpp             | 107 +++++++------
 3 files changed, 183 insertions(+), 155 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
index 770763b..003a173 100644
--- a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
@@ -46,57 +46,64 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
     void operator()()const
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            // devide into subarrays and check in each part if we can stop earlier
-            const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
-            bool result = true;
-            for(size_t i = 0; i < subarray_size; ++i)
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                // devide into subarrays and check in each part if we can stop earlier
+                const size_t subarray_size = cutoff_ > 1000 ? 100 : 1;
+                bool result = true;
+                for(size_t i = 0; i < subarray_size; ++i)
+                {
+                    if (*stop_event_)
+                    {
+                        break;
+                    }
+                    result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
+                    if (result == Op().cancel_value())
+                    {
+                        *stop_event_ = true;
+                        break;
+                    }
+                }
+                task_res.set_value(result);
+            }
+            else
             {
                 if (*stop_event_)
                 {
-                    break;
+                    task_res.set_value(Op().cancel_value());
                 }
-                result = Op().algorithm(beg_ + i * (end_ - beg_) / subarray_size, beg_ + (i + 1) * (end_ - beg_) / subarray_size, func_);
-                if (result == Op().cancel_value())
+                else
                 {
-                    *stop_event_ = true;
-                    break;
+                    boost::asynchronous::create_callback_continuation_job<Job>(
+                                // called when subtasks are done, set our result
+                                [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
+                                {
+                                    try
+                                    {
+                                        bool rt = std::get<0>(res).get();
+                                        bool rt2 = std::get<1>(res).get();
+                                        task_res.set_value( Op().merge(rt,rt2));
+                                    }
+                                    catch(...)
+                                    {
+                                        task_res.set_exception(std::current_exception());
+                                    }
+                                },
+                                // recursive tasks
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
+                                parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
+                    );
                 }
             }
-            task_res.set_value(result);
         }
-        else
+        catch(...)
         {
-            if (*stop_event_)
-            {
-                task_res.set_value(Op().cancel_value());
-            }
-            else
-            {
-                boost::asynchronous::create_callback_continuation_job<Job>(
-                            // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res)
-                            {
-                                try
-                                {
-                                    bool rt = std::get<0>(res).get();
-                                    bool rt2 = std::get<1>(res).get();
-                                    task_res.set_value( Op().merge(rt,rt2));
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            },
-                            // recursive tasks
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(beg_,it,func_,cutoff_, stop_event_, this->get_name(),prio_),
-                            parallel_all_of_helper<Iterator,Func,Op,Job>(it,end_,func_,cutoff_, stop_event_, this->get_name(),prio_)
-                );
-            }
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index fadc7e8..141427b 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -41,39 +41,46 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
     void operator()()
     {
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
-        
-        // Advance iterator up to the cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end_)
+        try
         {
-            std::iota(beg_, it, start_);
-            task_res.set_value();
+
+            // Advance iterator up to the cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end_)
+            {
+                std::iota(beg_, it, start_);
+                task_res.set_value();
+            }
+            else
+            {
+                auto distance = std::distance(beg_, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value();
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg_, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value();
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<Iterator, Job>(beg_, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
@@ -115,43 +122,50 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
     {
         std::shared_ptr<Range> range = std::move(range_);
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
-        
-        // Get iterators
-        auto beg = boost::begin(*range);
-        auto end = boost::end(*range);
-
-        // Advance iterator up to the cutoff
-        auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
-        // If the end is reached, use this thread to execute the subtask, otherwise recurse
-        if (it == end)
+        try
         {
-            std::iota(beg, it, start_);
-            task_res.set_value(std::move(*range));
+
+            // Get iterators
+            auto beg = boost::begin(*range);
+            auto end = boost::end(*range);
+
+            // Advance iterator up to the cutoff
+            auto it = boost::asynchronous::detail::find_cutoff(beg, cutoff_, end);
+            // If the end is reached, use this thread to execute the subtask, otherwise recurse
+            if (it == end)
+            {
+                std::iota(beg, it, start_);
+                task_res.set_value(std::move(*range));
+            }
+            else
+            {
+                auto distance = std::distance(beg, it);
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // Callback
+                            [task_res, range]
+                            (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
+                            {
+                                try
+                                {
+                                    // Call get() to check for exceptions
+                                    std::get<0>(res).get();
+                                    std::get<1>(res).get();
+                                    task_res.set_value(std::move(*range));
+                                }
+                                catch (...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
+                            },
+                            // recursive tasks
+                            parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
+                            parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
+                   );
+            }
         }
-        else
+        catch(...)
         {
-            auto distance = std::distance(beg, it);
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // Callback
-                        [task_res, range]
-                        (std::tuple<boost::asynchronous::expected<void>, boost::asynchronous::expected<void> > res) mutable
-                        {
-                            try
-                            {
-                                // Call get() to check for exceptions
-                                std::get<0>(res).get();
-                                std::get<1>(res).get();
-                                task_res.set_value(std::move(*range));
-                            }
-                            catch (...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_iota_inplace_helper<decltype(it), Job>(beg, it, start_, cutoff_, this->get_name(), prio_),
-                        parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
-               );
+            task_res.set_exception(std::current_exception());
         }
     }
 
diff --git a/boost/asynchronous/algorithm/parallel_unique.hpp b/boost/asynchronous/algorithm/parallel_unique.hpp
index d97cd0f..ebd1cd1 100644
--- a/boost/asynchronous/algorithm/parallel_unique.hpp
+++ b/boost/asynchronous/algorithm/parallel_unique.hpp
@@ -51,62 +51,69 @@ struct parallel_unique_helper: public boost::asynchronous::continuation_task<Ite
     void operator()()
     {
         boost::asynchronous::continuation_result<Iterator> task_res = this->this_task_result();
-        // advance up to cutoff
-        Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
-        // if not at end, recurse, otherwise execute here
-        if (it == end_)
+        try
         {
-            task_res.set_value(std::unique(beg_,end_,func_));
-        }
-        else
-        {
-            auto func = func_;
-            // remember our current iterators, as they will be needed for moving from within continuation's callback
-            auto end=end_;
-            auto beg=beg_;
-            boost::asynchronous::create_callback_continuation_job<Job>(
-                        // called when subtasks are done, set our result
-                        [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
-                                              boost::asynchronous::expected<Iterator>> res) mutable
-                        {
-                            try
+            // advance up to cutoff
+            Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
+            // if not at end, recurse, otherwise execute here
+            if (it == end_)
+            {
+                task_res.set_value(std::unique(beg_,end_,func_));
+            }
+            else
+            {
+                auto func = func_;
+                // remember our current iterators, as they will be needed for moving from within continuation's callback
+                auto end=end_;
+                auto beg=beg_;
+                boost::asynchronous::create_callback_continuation_job<Job>(
+                            // called when subtasks are done, set our result
+                            [task_res,beg,end,it,func](std::tuple<boost::asynchronous::expected<Iterator>,
+                                                  boost::asynchronous::expected<Iterator>> res) mutable
                             {
-                                // new end from each range
-                                Iterator itend1 = std::get<0>(res).get();
-                                Iterator itend2 = std::get<1>(res).get();
-
-                                // last of first range
-                                Iterator last1 = beg;
-                                std::advance(last1,std::distance(beg,itend1)-1);
-                                // remember valid size of total range
-                                auto size = std::distance(beg,itend1) + std::distance(it,itend2);
-                                // it is beginning of 2nd range
-                                if (func(*last1,*it))
+                                try
                                 {
-                                    // handle overlap and move range2's begin+1 to range1's end
-                                    std::move(++it,itend2,itend1);
-                                    --size;
+                                    // new end from each range
+                                    Iterator itend1 = std::get<0>(res).get();
+                                    Iterator itend2 = std::get<1>(res).get();
+
+                                    // last of first range
+                                    Iterator last1 = beg;
+                                    std::advance(last1,std::distance(beg,itend1)-1);
+                                    // remember valid size of total range
+                                    auto size = std::distance(beg,itend1) + std::distance(it,itend2);
+                                    // it is beginning of 2nd range
+                                    if (func(*last1,*it))
+                                    {
+                                        // handle overlap and move range2's begin+1 to range1's end
+                                        std::move(++it,itend2,itend1);
+                                        --size;
+                                    }
+                                    // if there were unique's in range1
+                                    else if (it != itend1)
+                                    {
+                                        // move range2's begin to range1's end
+                                        std::move(it,itend2,itend1);
+                                    }
+                                    // done
+                                    auto newend = beg;
+                                    std::advance(newend,size);
+                                    task_res.set_value(newend);
                                 }
-                                // if there were unique's in range1
-                                else if (it != itend1)
+                                catch(...)
                                 {
-                                    // move range2's begin to range1's end
-                                    std::move(it,itend2,itend1);
+                                    task_res.set_exception(std::current_exception());
                                 }
-                                // done
-                                auto newend = beg;
-                                std::advance(newend,size);
-                                task_res.set_value(newend);
-                            }
-                            catch(...)
-                            {
-                                task_res.set_exception(std::current_exception());
-                            }
-                        },
-                        // recursive tasks
-                        parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
-                        parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
-            );
+                            },
+                            // recursive tasks
+                            parallel_unique_helper<Iterator,Func,Job>(beg_,it,func_,cutoff_,this->get_name(),prio_),
+                            parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
+                );
+            }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
         }
     }
     Iterator beg_;
-- 
2.43.0


From 0445f335d75c2d1276e0e11f89066f7ea4cc71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 28/74] fix: vector::pop_back destroyed the first element
 instead of the last

---
 boost/asynchronous/container/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 52f6a87..3effef1 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -789,7 +789,7 @@ public:
     }
     void pop_back()
     {
-        ((T*)(begin()))->~T();
+        ((T*)(end()-1))->~T();
         --m_size;
         --m_data->size_;
     }
-- 
2.43.0


From 26494acf9169b1329d46d1176bf2dd1298125a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 29/74] fix: vector::erase returned end() instead of the
 position after the erased elements

---
 boost/asynchronous/container/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 3effef1..81149e3 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -924,7 +924,7 @@ public:
             }
             // set to new size
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
         else
         {
@@ -1039,7 +1039,7 @@ public:
             }
             // remove our excess elements
             resize(size()-(last - first));
-            return end();
+            return (iterator)first;
         }
     }
     iterator erase( const_iterator pos)
-- 
2.43.0


From 360b6c599c7620f6a6f0ff2271c23b4880f2d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 30/74] fix: vector::insert and emplace left a capacity()
 smaller than the storage

---
 boost/asynchronous/container/vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 81149e3..8aeac73 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -1054,7 +1054,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1199,7 +1199,7 @@ public:
         if (size()+(last-first) > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+(last-first));
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1367,7 +1367,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1504,7 +1504,7 @@ public:
         if (size()+1 > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+1);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
@@ -1674,7 +1674,7 @@ public:
         if (size()+count > capacity())
         {
             auto new_capacity = calc_new_capacity(size()+count);
-            reallocate_helper(new_capacity);
+            m_capacity = reallocate_helper(new_capacity);
         }
         iterator pos = begin() + distance_begin_pos;
         // we need move twice data after pos as parallel_move does not support overlapping ranges
-- 
2.43.0


From f419c0636b9d3f42778acee4692a769aeeb21bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 31/74] fix: using a vector after clear() or after it was moved
 from dereferenced null

---
 boost/asynchronous/container/vector.hpp | 29 ++-----------------------
 1 file changed, 2 insertions(+), 27 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 8aeac73..457495b 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -309,6 +309,7 @@ public:
     {
         other.m_data.reset();
         other.m_size = 0;
+        other.m_capacity = 0;
     }
     vector( vector const& other )
         : m_scheduler(other.m_scheduler)
@@ -706,33 +707,7 @@ public:
 
     void clear()
     {
-        if (m_scheduler.is_valid() && !!m_data)
-        {
-            try
-            {
-                auto fu =
-                boost::asynchronous::post_future(m_scheduler,
-                                                 boost::asynchronous::move_bind(
-                                                     [](internal_data_type data)mutable
-                                                     {
-                                                        return boost::asynchronous::top_level_callback_continuation_job<void,Job>(
-                                                         boost::asynchronous::detail::move_only<internal_data_type>
-                                                            (std::move(data)));
-                                                     },
-                                                     std::move(m_data)),
-                                                 m_task_name+"_vector_clear",m_prio);
-
-                fu.get();
-            }
-            catch(std::exception&)
-            {}
-        }
-        else if(!!m_data)
-        {
-            boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,m_data->size_,(char*)m_data->data());
-            m_data->size_=0;
-        }
-        m_size=0;
+        resize(0);
     }
 
     void push_back( const T& value )
-- 
2.43.0


From 9922bd598619fdfcad038124a01bf26d9efa2d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 32/74] fix: vector(n,value) left cutoff and priority
 uninitialised

---
 boost/asynchronous/container/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 457495b..b60f023 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -120,7 +120,10 @@ public:
 
 
     vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )noexcept
-        : m_size(n)
+        : m_cutoff(1000)
+        , m_task_name("")
+        , m_prio(0)
+        , m_size(n)
         , m_capacity(n)
         , m_allocator(alloc)
     {
-- 
2.43.0


From 9fc371f212eca2fb7d909166d54d64b5df21c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 33/74] fix: vector freed its storage through a pointer to the
 vector that allocated it, also after a move or swap

---
 boost/asynchronous/container/vector.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index b60f023..4c81c22 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -108,7 +108,7 @@ public:
     , m_allocator(alloc)
     {
         std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+                                  [dealloc=m_allocator](T* p)mutable{dealloc.deallocate(p,default_capacity);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,m_cutoff,m_task_name,m_prio);
     }
@@ -127,7 +127,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),value);
     }
@@ -142,7 +142,7 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -157,7 +157,7 @@ public:
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,m_cutoff,m_task_name,m_prio);
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,decltype(first)>((std::size_t)0,n,(char*)raw.get(),first);
     }
@@ -192,7 +192,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -225,7 +225,7 @@ public:
         , m_allocator(alloc)
     {
         std::shared_ptr<T> raw (m_allocator.allocate(default_capacity),
-                                  [this](T* p){this->m_allocator.deallocate(p,default_capacity);});
+                                  [dealloc=m_allocator](T* p)mutable{dealloc.deallocate(p,default_capacity);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(0,raw,cutoff,task_name,prio);
     }
@@ -245,7 +245,7 @@ public:
         , m_capacity(n)
         , m_allocator(alloc)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
 
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -281,7 +281,7 @@ public:
         auto n = std::distance(first,last);
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -325,7 +325,7 @@ public:
         auto n = other.size();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         auto cutoff = m_cutoff;
         auto task_name = m_task_name;
         auto prio = m_prio;
@@ -385,7 +385,7 @@ public:
         auto first = init.begin();
         m_size=n;
         m_capacity=n;
-        std::shared_ptr<T> raw (m_allocator.allocate(n),[this,n](T* p){this->m_allocator.deallocate(p,n);});
+        std::shared_ptr<T> raw (m_allocator.allocate(n),[dealloc=m_allocator,n](T* p)mutable{dealloc.deallocate(p,n);});
         m_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>(n,raw,cutoff,task_name,prio);
         if (m_scheduler.is_valid())
         {
@@ -1895,7 +1895,7 @@ private:
 
     std::size_t reallocate_helper(size_type new_memory)
     {
-        std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory](T* p){this->m_allocator.deallocate(p,new_memory);});
+        std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[dealloc=m_allocator,new_memory](T* p)mutable{dealloc.deallocate(p,new_memory);});
 
         // create our current number of objects with placement new
         auto n = m_size;
@@ -2006,7 +2006,7 @@ private:
                 auto prio = m_prio;
                 auto beg = m_begin; auto end =m_end;
 
-                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[this,new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
+                std::shared_ptr<T> raw (m_allocator.allocate(new_memory),[new_memory,alloc](T* p)mutable{alloc.deallocate(p,new_memory);});
 
                 auto cont_p = boost::asynchronous::parallel_placement<T,Job>
                         (0,m_size,(char*)raw.get(),T(),m_cutoff,this->get_name()+"vector_reallocate_placement",m_prio);
-- 
2.43.0


From d5dd41e022e7022f590da7c5a7e4d07ecbcf9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 34/74] fix: rbegin() const and rend() of vector did not
 compile

---
 boost/asynchronous/container/vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 4c81c22..204d131 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -602,7 +602,7 @@ public:
     {
         if (!!m_data)
             return const_reverse_iterator(end());
-        return nullptr;
+        return reverse_iterator(nullptr);
     }
     const_reverse_iterator crbegin() const
     {
@@ -614,19 +614,19 @@ public:
     {
         if (!!m_data)
             return reverse_iterator(begin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator rend() const
     {
         if (!!m_data)
             return const_reverse_iterator(begin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crend() const
     {
         if (!!m_data)
             return const_reverse_iterator(cbegin());
-        return nullptr;
+        return const_reverse_iterator(nullptr);
     }
 
     reference operator[] (size_type n)
-- 
2.43.0


From 59f0863206db6f3633c850d113dfbeb7b4b61937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 35/74] fix: vector read a freed or moved-from element when
 inserting a copy of one of its own elements, and emplace only took one
 argument

---
 boost/asynchronous/container/vector.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 204d131..617569a 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -723,11 +723,13 @@ public:
         }
         else
         {
+            // the new element could be made from an element of this vector
+            T temp(value);
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(value);
+            push_back(std::move(temp));
         }
     }
     void push_back( T&& value )
@@ -740,11 +742,13 @@ public:
         }
         else
         {
+            // the new element could be made from an element of this vector
+            T temp(std::move(value));
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<T>(value));
+            push_back(std::move(temp));
         }
     }
     template< class... Args >
@@ -752,17 +756,19 @@ public:
     {
         if (m_size + 1 <= m_capacity )
         {
-            new (end()) T(std::forward<Args...>(args...));
+            new (end()) T(std::forward<Args>(args)...);
             ++m_size;
             ++m_data->size_;
         }
         else
         {
+            // the new element could be made from an element of this vector
+            T temp(std::forward<Args>(args)...);
             // reallocate memory
             auto new_memory = reallocate_helper(calc_new_capacity(size()));
             // add new element, update size and capacity
             m_capacity = new_memory;
-            push_back(std::forward<Args...>(args...));
+            push_back(std::move(temp));
         }
     }
     void pop_back()
@@ -1027,6 +1033,8 @@ public:
     template< class... Args >
     iterator emplace( const_iterator orgpos,  Args&&... args)
     {
+        // the new element could be made from an element of this vector
+        T temp(std::forward<Args>(args)...);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1101,7 +1109,7 @@ public:
 
         // add input using placement new
         ((T*) pos)->~T();
-        new ((T*) pos) T(std::forward<Args...>(args...));
+        new ((T*) pos) T(std::move(temp));
 
         // move back from temporary
         auto temp_end = temp_begin + n;
@@ -1340,6 +1348,8 @@ public:
     }
     iterator insert( const_iterator orgpos, const T& value )
     {
+        // value could be an element of this vector
+        T temp(value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+1 > capacity())
@@ -1413,7 +1423,7 @@ public:
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
 
         // copy input
-        *pos = value;
+        *pos = std::move(temp);
         // move back from temporary
         auto temp_end = temp_begin + n;
         auto beg_move_back = pos + 1;
@@ -1647,6 +1657,8 @@ public:
 
     iterator insert( const_iterator orgpos, size_type count, const T& value )
     {
+        // value could be an element of this vector
+        std::vector<T> a(count,value);
         auto distance_begin_pos = orgpos-cbegin();
         // check if we need to reallocate
         if (size()+count > capacity())
@@ -1737,7 +1749,6 @@ public:
         }
 
         // copy input
-        std::vector<T> a(count,value);
         if (m_scheduler.is_valid())
         {
             auto fu4 = boost::asynchronous::post_future(m_scheduler,
-- 
2.43.0


From 6b8024b47a3f40ba7d430632b691afa3a7a28e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 36/74] fix: an exception while placing elements was lost,
 destroyed the wrong elements or set a result twice

Also async_resize within the capacity never finished and async_merge_containers
moved elements past the end of the destination.
---
 .../algorithm/parallel_placement.hpp          |  43 +++---
 boost/asynchronous/container/algorithms.hpp   |  48 ++++++-
 boost/asynchronous/container/vector.hpp       | 133 +++++++++++-------
 3 files changed, 149 insertions(+), 75 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 00bd484..89a7e61 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -49,6 +49,7 @@ void serial_placement(Iterator beg, Iterator end,char* data)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -68,6 +69,7 @@ void serial_placement(Iterator beg, Iterator end,char* data,T init)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -87,6 +89,7 @@ void serial_placement_it(Iterator beg, Iterator end,char* data,Iterator2 it2)
             {
                 ((T*)(data)+(j+beg))->~T();
             }
+            throw;
         }
     }
 }
@@ -131,6 +134,7 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -156,14 +160,14 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, both have already cleaned up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -196,7 +200,8 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
         }
         catch(...)
         {
-            task_res.set_exception(std::current_exception());
+            // nothing constructed yet
+            task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
         }
     }
     std::size_t beg_;
@@ -255,6 +260,7 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                             ((T*)(data_)+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -280,18 +286,18 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, both have already cleaned up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data)+(j+beg))->~T();
+                                            ((T*)(data)+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
@@ -320,7 +326,8 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
         }
         catch(...)
         {
-            task_res.set_exception(std::current_exception());
+            // nothing constructed yet
+            task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
         }
     }
     std::size_t beg_;
@@ -381,6 +388,7 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -408,18 +416,18 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
-                                    // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    // if both have an error, both have already cleaned up, keep any exception and proceed
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-                                            ((T*)(data.get())+(j+beg))->~T();
+                                            ((T*)(data.get())+(j+it))->~T();
                                         }
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
@@ -448,7 +456,8 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
         }
         catch(...)
         {
-            task_res.set_exception(std::current_exception());
+            // nothing constructed yet
+            task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
         }
     }
     std::size_t beg_;
diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4e3f5bb..fb1a29e 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -194,6 +194,34 @@ struct resize_task: public boost::asynchronous::continuation_task<Container>
                         }
                     });
                 }
+                else
+                {
+                    // enough memory, only construct the new elements
+                    auto v = m_value;
+                    auto cont = boost::asynchronous::parallel_placement<value_type,Job>
+                            (c->size(),v,(char*)c->begin(),value_type(),c->get_cutoff(),c->get_name()+"_vector_resize_placement",c->get_prio());
+                    cont.on_done([task_res,c,v]
+                                 (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& res)mutable
+                    {
+                        try
+                        {
+                            auto placement_result = std::get<0>(res).get();
+                            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                            {
+                                task_res.set_exception(placement_result.second);
+                                return;
+                            }
+                            auto data = c->get_internal_data();
+                            data->size_ = v;
+                            c->set_internal_data(data,c->capacity());
+                            task_res.set_value(std::move(*c));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
+                    });
+                }
             }
             else
             {
@@ -603,7 +631,14 @@ struct make_standard_range_task: public boost::asynchronous::continuation_task<R
     void operator()()
     {
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
-        task_res.set_value(Range(m_size));
+        try
+        {
+            task_res.set_value(Range(m_size));
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
 
     std::size_t m_size;
@@ -677,7 +712,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
             auto name = this->get_name();
 
             auto cont = boost::asynchronous::async_resize(std::move(m_container1),s1+s2);
-            cont.on_done([task_res,name,c2]
+            cont.on_done([task_res,name,c2,s1]
                            (std::tuple<boost::asynchronous::expected<Container> >&& res)mutable
             {
                 try
@@ -685,7 +720,7 @@ struct async_merge_task: public boost::asynchronous::continuation_task<Container
                     std::shared_ptr<Container> c1 = std::make_shared<Container>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::iterator;
                     auto cont_move = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                                (c2->begin(),c2->end(),c1->end(),c2->get_cutoff(),
+                                                (c2->begin(),c2->end(),c1->begin()+s1,c2->get_cutoff(),
                                                  name+"_parallel_move_if_noexcept",c2->get_prio());
                     cont_move.on_done([task_res,c1,c2]
                                    (std::tuple<boost::asynchronous::expected<void> >&& res_move)mutable
@@ -758,10 +793,11 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                 s += c.size();
             }
             auto name = this->get_name();
+            auto s1 = m_container[0].size();
             auto cont = boost::asynchronous::async_resize(std::move(m_container[0]),s);
             std::shared_ptr<Container> c = std::make_shared<Container>(std::move(m_container));
 
-            cont.on_done([task_res,name,c]
+            cont.on_done([task_res,name,c,s1]
                            (std::tuple<boost::asynchronous::expected<typename Container::value_type> >&& res)mutable
             {
                 try
@@ -770,11 +806,13 @@ struct async_merge_container_of_containers_task: public boost::asynchronous::con
                             std::make_shared<typename Container::value_type>(std::move(std::get<0>(res).get()));
                     using iterator = typename Container::value_type::iterator;
                     std::vector<boost::asynchronous::detail::callback_continuation<void>> subs;
+                    auto dest = c1->begin()+s1;
                     for (auto it = c->begin()+1; it != c->end();++it)
                     {
                         subs.push_back(boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                       ((*it).begin(),(*it).end(),c1->end(),c1->get_cutoff(),
+                                       ((*it).begin(),(*it).end(),dest,c1->get_cutoff(),
                                         name+"_parallel_move_if_noexcept",c1->get_prio()));
+                        dest += (*it).size();
                     }
                     boost::asynchronous::create_callback_continuation(
                          [task_res,c,c1]
diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 617569a..fe67484 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -119,7 +119,7 @@ public:
     }
 
 
-    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )noexcept
+    vector( size_type n,const T& value = T(),const Alloc& alloc = Alloc() )
         : m_cutoff(1000)
         , m_task_name("")
         , m_prio(0)
@@ -133,7 +133,7 @@ public:
     }
 
     template< class InputIt >
-    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())noexcept
+    vector(InputIt first, InputIt last,const Alloc& alloc = Alloc())
         : m_cutoff(1000)
         , m_task_name("")
         , m_prio(0)
@@ -147,7 +147,7 @@ public:
         boost::asynchronous::detail::serial_placement_it<T,std::size_t,InputIt>((std::size_t)0,n,(char*)raw.get(),first);
     }
 
-    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )noexcept
+    vector( std::initializer_list<T> init,const Alloc& alloc= Alloc() )
      : m_cutoff(1000)
      , m_task_name("")
      , m_prio(0)
@@ -203,7 +203,11 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
@@ -257,7 +261,11 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
@@ -293,7 +301,11 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
@@ -340,7 +352,11 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
@@ -397,7 +413,11 @@ public:
             },
             task_name+"vector_ctor",prio);
             // if exception, will be forwarded
-            fu.get();
+            auto placement_result = fu.get();
+            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+            {
+                std::rethrow_exception(placement_result.second);
+            }
         }
         else
         {
@@ -2024,60 +2044,67 @@ private:
                 cont_p.on_done([task_res,old_data,raw,beg,end,size,cutoff,task_name,prio]
                                (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& cres)mutable
                 {
-                    auto res =std::get<0>(cres).get();
-                    if (res.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                    try
                     {
-                        task_res.set_exception(res.second);
-                        return;
-                    }
-                    auto new_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>
-                            (size,std::move(raw),cutoff,task_name,prio);
-                    boost::asynchronous::detail::callback_continuation<void, Job> cont_m;
+                        auto res =std::get<0>(cres).get();
+                        if (res.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                        {
+                            task_res.set_exception(res.second);
+                            return;
+                        }
+                        auto new_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>
+                                (size,std::move(raw),cutoff,task_name,prio);
+                        boost::asynchronous::detail::callback_continuation<void, Job> cont_m;
 #if __cpp_if_constexpr >= 201606
-                    if constexpr(force_move)
+                        if constexpr(force_move)
 #else
-                    if (force_move)
+                        if (force_move)
 #endif
-                    {
-                        cont_m = boost::asynchronous::parallel_move<iterator,iterator,Job>
-                                     (beg,end,(iterator)(new_data->data()),cutoff,task_name+"_vector_reallocate_move",prio);
-                    }
-                    else
-                    {
-                        cont_m = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
-                                     (beg,end,(iterator)(new_data->data()),cutoff,task_name+"_vector_reallocate_move",prio);
-                    }
-                    cont_m.on_done([task_res,old_data,new_data,raw,beg,end,size,cutoff,task_name,prio]
-                                   (std::tuple<boost::asynchronous::expected<void> >&& mres)mutable
-                    {
-                        try
                         {
-                            // check for exceptions
-                            std::get<0>(mres).get();
-                            // delete old data
-                            auto cont_d = boost::asynchronous::top_level_callback_continuation_job<void,Job>(
-                                                                             boost::asynchronous::detail::move_only<internal_data_type>
-                                                                                (std::move(old_data)));
-                            cont_d.on_done([task_res,new_data](std::tuple<boost::asynchronous::expected<void>>&& dres)mutable
-                            {
-                                try
-                                {
-                                    // check for exceptions
-                                    std::get<0>(dres).get();
-                                    task_res.set_value(std::move(new_data));
-                                }
-                                catch(...)
-                                {
-                                    task_res.set_exception(std::current_exception());
-                                }
-                            });
+                            cont_m = boost::asynchronous::parallel_move<iterator,iterator,Job>
+                                         (beg,end,(iterator)(new_data->data()),cutoff,task_name+"_vector_reallocate_move",prio);
                         }
-                        catch(...)
+                        else
                         {
-                            task_res.set_exception(std::current_exception());
+                            cont_m = boost::asynchronous::parallel_move_if_noexcept<iterator,iterator,Job>
+                                         (beg,end,(iterator)(new_data->data()),cutoff,task_name+"_vector_reallocate_move",prio);
                         }
+                        cont_m.on_done([task_res,old_data,new_data,raw,beg,end,size,cutoff,task_name,prio]
+                                       (std::tuple<boost::asynchronous::expected<void> >&& mres)mutable
+                        {
+                            try
+                            {
+                                // check for exceptions
+                                std::get<0>(mres).get();
+                                // delete old data
+                                auto cont_d = boost::asynchronous::top_level_callback_continuation_job<void,Job>(
+                                                                                 boost::asynchronous::detail::move_only<internal_data_type>
+                                                                                    (std::move(old_data)));
+                                cont_d.on_done([task_res,new_data](std::tuple<boost::asynchronous::expected<void>>&& dres)mutable
+                                {
+                                    try
+                                    {
+                                        // check for exceptions
+                                        std::get<0>(dres).get();
+                                        task_res.set_value(std::move(new_data));
+                                    }
+                                    catch(...)
+                                    {
+                                        task_res.set_exception(std::current_exception());
+                                    }
+                                });
+                            }
+                            catch(...)
+                            {
+                                task_res.set_exception(std::current_exception());
+                            }
 
-                    });
+                        });
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
 
             }
-- 
2.43.0


From 7499c4fa59f6c1ee6cd212a33ff1b44aa2a190eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:16 +0000
Subject: [PATCH 37/74] fix: rbegin() const and rend() of vector return the
 iterator type they declare

---
 boost/asynchronous/container/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index fe67484..0df59ee 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -622,7 +622,7 @@ public:
     {
         if (!!m_data)
             return const_reverse_iterator(end());
-        return reverse_iterator(nullptr);
+        return const_reverse_iterator(nullptr);
     }
     const_reverse_iterator crbegin() const
     {
@@ -634,7 +634,7 @@ public:
     {
         if (!!m_data)
             return reverse_iterator(begin());
-        return const_reverse_iterator(nullptr);
+        return reverse_iterator(nullptr);
     }
     const_reverse_iterator rend() const
     {
-- 
2.43.0


From 635be1a5853387f6b690dd14e47bb764939bb0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 38/74] fix: inserting zero copies into a moved-from vector
 dereferenced null, a throwing copy in the constructor terminated

---
 boost/asynchronous/container/vector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 0df59ee..1faac20 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -255,7 +255,7 @@ public:
         if (m_scheduler.is_valid())
         {
             auto fu = boost::asynchronous::post_future(scheduler,
-            [n,raw,value,cutoff,task_name,prio]()mutable
+            [n,raw,&value,cutoff,task_name,prio]()mutable
             {
                 return boost::asynchronous::parallel_placement<T,Job>(0,n,(char*)raw.get(),value,cutoff,task_name+"_vector_ctor_placement",prio);
             },
@@ -1677,6 +1677,11 @@ public:
 
     iterator insert( const_iterator orgpos, size_type count, const T& value )
     {
+        if (count == 0)
+        {
+            // nothing to do
+            return (iterator)orgpos;
+        }
         // value could be an element of this vector
         std::vector<T> a(count,value);
         auto distance_begin_pos = orgpos-cbegin();
-- 
2.43.0


From 8ef675b018b6761f2072b98723b453c1521ae386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 39/74] fix: multiple_thread_scheduler::interruptible_post
 takes its priority as post does

---
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..fb0c2b3 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
-- 
2.43.0


From 507da7632b1f0011d16782c29e99d197130c2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 40/74] fix: multiple_thread_scheduler::enable_queue takes its
 priority as post does

---
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index fb0c2b3..504fb9a 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -328,12 +328,13 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        if (queue_prio >= m_queues->size())
+        std::size_t servant_index = (queue_prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[queue_prio].m_queues->enable_queue(queue_prio,enable);
+        (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
     // try to execute a job, return true
-- 
2.43.0


From 787c1bb0c8672c1d7414c21f86cf6771b91c3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:24 +0000
Subject: [PATCH 41/74] fix: multiple_thread_scheduler keeps a queue taken
 until its job is destroyed

---
 .../scheduler/multiple_thread_scheduler.hpp   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 504fb9a..b7d28e0 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -337,14 +337,30 @@ public:
         (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
+    // keeps a queue taken until its job has been executed and destroyed
+    struct taken_queue
+    {
+        ~taken_queue(){release();}
+        void release()
+        {
+            if (m_taken)
+            {
+                *m_taken = false;
+                m_taken = nullptr;
+            }
+        }
+        std::atomic_bool* m_taken = nullptr;
+    };
+
     // try to execute a job, return true
     static bool execute_one_job(std::vector<job_queues>* queues,size_t index,size_t& current_servant,CPULoad& cpu_load,std::shared_ptr<diag_type> diagnostics,
                                 std::list<boost::asynchronous::any_continuation>& waiting)
     {
         bool popped = false;
+        // released after destruction of the job, which might own the last instance of a servant
+        taken_queue taken;
         // get a job
         typename Q::job_type job;
-        std::size_t taken_index = 0;
         try
         {
             auto s = queues->size();
@@ -356,14 +372,11 @@ public:
                 if ((*queues)[current_servant].m_taken.compare_exchange_strong(expected,true))
                 {
                     // ok we have it
+                    taken.m_taken = &(*queues)[current_servant].m_taken;
                     popped = ((*queues)[current_servant].m_queues)->try_pop(job);
-                    if (popped)
-                    {
-                        taken_index = current_servant;
-                    }
-                    else
+                    if (!popped)
                     {
-                        (*queues)[current_servant].m_taken = false;
+                        taken.release();
                     }
                 }
                 if (popped)
@@ -381,7 +394,6 @@ public:
                 boost::asynchronous::job_traits<typename Q::job_type>::add_current_diagnostic(index,job,diagnostics.get());
                 // execute job
                 job();
-                (*queues)[taken_index].m_taken = false;
                 boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
                 boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
@@ -410,16 +422,11 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
-            if (popped)
-            {
-                (*queues)[taken_index].m_taken = false;
-            }
         }
         catch(std::exception&)
         {
             if (popped)
             {
-                (*queues)[taken_index].m_taken = false;
                 boost::asynchronous::job_traits<typename Q::job_type>::set_failed(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
                 boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
-- 
2.43.0


From 25122fdab2a5e7741fab09fefe77bd67ad3bf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 42/74] fix: a servant_proxy posts the destruction of its
 servant into the servant's own world

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..d5d21f0 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -609,7 +609,7 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            this->post(std::move(a),ServantProxy::get_dtor_prio());
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 9e43f9dd8ab8be7f65681cd6e73915b0ef4f144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 43/74] fix: posted members add the offset of their servant's
 world once

---
 boost/asynchronous/servant_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index d5d21f0..0cacf76 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -63,7 +63,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = 100000 * this->m_offset_id;                                                                             \
+        std::size_t p = 0;                                                                                                      \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -74,7 +74,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
+        std::size_t p = prio;                                                                                                   \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -88,7 +88,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t prio = 100000 * this->m_offset_id;                                                                                      \
+        std::size_t prio = 0;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
@@ -101,7 +101,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                                  \
+        std::size_t p = prio;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-- 
2.43.0


From 2fa105530354743e596b72de21e156a9d17bf7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 44/74] fix: a proxy cast keeps the world of its servant

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 0cacf76..1e06d89 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -482,7 +482,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
-- 
2.43.0


From e479ffd7c2e69cdb7d4b0b6444db50360b062f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 45/74] fix: assigning a servant_proxy destroys the previous
 servant in its own thread

---
 boost/asynchronous/servant_proxy.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 1e06d89..b0089af 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -621,9 +621,14 @@ public:
     servant_proxy(servant_proxy&&)                =default;
 
     /*!
-     * \brief Move assignment.
+     * \brief Move assignment. The previous servant is released like in the destructor.
      */
-    servant_proxy& operator=(servant_proxy&&)     =default;
+    servant_proxy& operator=(servant_proxy&& rhs)
+    {
+        servant_proxy tmp(std::move(rhs));
+        this->swap(tmp);
+        return *this;
+    }
 
     /*!
      * \brief Copy constructor.
@@ -631,9 +636,14 @@ public:
     servant_proxy(servant_proxy const&)           =default;
 
     /*!
-     * \brief Copy assignment.
+     * \brief Copy assignment. The previous servant is released like in the destructor.
      */
-    servant_proxy& operator=(servant_proxy const&)=default;
+    servant_proxy& operator=(servant_proxy const& rhs)
+    {
+        servant_proxy tmp(rhs);
+        this->swap(tmp);
+        return *this;
+    }
 
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
     void post(callable_type job, std::size_t prio) const
@@ -689,6 +699,12 @@ public:
     std::size_t m_offset_id;
 
 private:
+    void swap(servant_proxy& rhs)
+    {
+        std::swap(m_proxy,rhs.m_proxy);
+        std::swap(m_servant,rhs.m_servant);
+        std::swap(m_offset_id,rhs.m_offset_id);
+    }
     // safe creation of servant in our thread ctor is trivial or told us so
     template <typename S,typename... Args>
     typename std::enable_if<
-- 
2.43.0


From 64e0bc47e069c0a474d67d4de56de384a62a7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:59 +0000
Subject: [PATCH 46/74] fix: a member's callback which throws is not called a
 second time

---
 boost/asynchronous/servant_proxy.hpp | 32 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index b0089af..cd80579 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -239,8 +239,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {boost::asynchronous::expected<servant_return> res; try{ res.set_value(servant->funcname(std::move(as)...));}   \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),"",prio);                                                                                 \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -251,8 +251,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t prio = 100000 * this->m_offset_id;                                                                                              \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {boost::asynchronous::expected<void> res; try{servant->funcname(std::move(as)...);}                             \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),"",prio);                                                                                 \
     }
 
@@ -268,8 +268,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {boost::asynchronous::expected<servant_return> res; try{ res.set_value(servant->funcname(std::move(as)...));}   \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),"",p);                                                                                    \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -280,8 +280,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                                          \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {boost::asynchronous::expected<void> res; try{servant->funcname(std::move(as)...);}                             \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),"",p);                                                                                    \
     }
 
@@ -306,8 +306,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {boost::asynchronous::expected<servant_return> res; try{ res.set_value(servant->funcname(std::move(as)...));}   \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),taskname,prio);                                                                           \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -318,8 +318,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t prio = 100000 * this->m_offset_id;                                                                                              \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {boost::asynchronous::expected<void> res; try{servant->funcname(std::move(as)...);}                             \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),taskname,prio);                                                                           \
     }
 #endif
@@ -335,8 +335,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         using servant_return = typename workaround_gcc::servant_return;                                                                             \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{ cb_func(boost::asynchronous::expected<servant_return>(servant->funcname(std::move(as)...)));}             \
-                                     catch(...){cb_func(boost::asynchronous::expected<servant_return>(std::current_exception()));}                  \
+                                    {boost::asynchronous::expected<servant_return> res; try{ res.set_value(servant->funcname(std::move(as)...));}   \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),taskname,p);                                                                              \
     }                                                                                                                                               \
     template <typename F,typename... Args>                                                                                                          \
@@ -347,8 +347,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                                          \
         boost::asynchronous::post_future(this->m_proxy,                                                                                             \
                 boost::asynchronous::move_bind([servant,cb_func](Args... as)                                                                        \
-                                    {try{servant->funcname(std::move(as)...); cb_func(boost::asynchronous::expected<void>());}                      \
-                                     catch(...){cb_func(boost::asynchronous::expected<void>(std::current_exception()));}                            \
+                                    {boost::asynchronous::expected<void> res; try{servant->funcname(std::move(as)...);}                             \
+                                     catch(...){res.set_exception(std::current_exception());} cb_func(std::move(res));                              \
                                     },std::move(args)...),taskname,p);                                                                              \
     }
 
-- 
2.43.0


From 00a797fc069324eb1bd39836a7f772b3fbd5404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 47/74] fix: BOOST_ASYNC_POST_CALLBACK_MEMBER compiles

---
 boost/asynchronous/servant_proxy.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index cd80579..67a58d3 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -387,8 +387,13 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
                                     },std::move(args)...),weak_cb_scheduler,std::forward<F>(cb_func),"",p,cb_prio);                                 \
     }
 
+#if !defined(_MSC_VER) || defined(__clang__)
+#define BOOST_ASYNC_POST_CALLBACK_MEMBER(...)                                                                   \
+    BOOST_PP_OVERLOAD(BOOST_ASYNC_POST_CALLBACK_MEMBER_,__VA_ARGS__)(__VA_ARGS__)
+#else
 #define BOOST_ASYNC_POST_CALLBACK_MEMBER(...)                                                                                                       \
     BOOST_PP_CAT(BOOST_PP_OVERLOAD(BOOST_ASYNC_POST_CALLBACK_MEMBER_,__VA_ARGS__)(__VA_ARGS__), BOOST_PP_EMPTY())
+#endif
 
 #ifdef BOOST_NO_CXX14_RETURN_TYPE_DEDUCTION
 #define BOOST_ASYNC_UNSAFE_MEMBER(funcname)                                                                                                         \
-- 
2.43.0


From 98216fbbb8b10d3225d40e1823d404d1d62bf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:17 +0000
Subject: [PATCH 48/74] fix: a member called with a posted callback does not
 take its servant into the callback's thread

---
 boost/asynchronous/servant_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 67a58d3..8bee587 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -369,8 +369,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         auto servant = this->m_servant;                                                                                                             \
         std::size_t prio = 100000 * this->m_offset_id;                                                                                              \
         boost::asynchronous::post_callback(m_proxy,                                                                                                 \
-                boost::asynchronous::move_bind([servant](Args... as)                                                                                \
-                                    {return servant->funcname(std::move(as)...);                                                                    \
+                boost::asynchronous::move_bind([servant](Args... as) mutable                                                                        \
+                                    {auto s = std::move(servant); return s->funcname(std::move(as)...);                                             \
                                     },std::move(args)...),weak_cb_scheduler,std::forward<F>(cb_func),"",prio,cb_prio);                              \
     }
 #endif
@@ -382,8 +382,8 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
         auto servant = this->m_servant;                                                                                                             \
         std::size_t p = prio + 100000 * this->m_offset_id;                                                                                          \
         boost::asynchronous::post_callback(m_proxy,                                                                                                 \
-                boost::asynchronous::move_bind([servant](Args... as)                                                                                \
-                                    {return servant->funcname(std::move(as)...);                                                                    \
+                boost::asynchronous::move_bind([servant](Args... as) mutable                                                                        \
+                                    {auto s = std::move(servant); return s->funcname(std::move(as)...);                                             \
                                     },std::move(args)...),weak_cb_scheduler,std::forward<F>(cb_func),"",p,cb_prio);                                 \
     }
 
-- 
2.43.0


From ca9a8e4e6a55d1126d8069399f17e8293bb73a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 49/74] fix: an interruption ends with its job: it neither hits
 later jobs of the thread nor is it forgotten by the job's continuation

---
 .../scheduler/detail/interrupt_state.hpp      | 11 +++++--
 .../scheduler/detail/interruptible_job.hpp    | 32 ++++++++++++++-----
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index 9c1c326..bb3b088 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -69,10 +69,17 @@ struct interrupt_state
         }
         m_state = 2;
     }
-    void complete()
+    // returns true if there was an interruption before completion
+    bool complete()
     {
         boost::mutex::scoped_lock lock(m_mutex);
-        m_state = 1;
+        bool interrupted = is_interrupted_int();
+        // an interrupted job stays interrupted, its continuation needs to know
+        if (!interrupted)
+        {
+            m_state = 1;
+        }
+        return interrupted;
     }
     void run()
     {
diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index febb5e0..f59c93e 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -93,8 +93,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
         {
-            // remove state from tss
-            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            end_job();
             return;
         }
         try
@@ -103,6 +102,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         }
         catch(boost::thread_interrupted&)
         {
+            end_job();
             throw;
         }
         // other exceptions
@@ -110,16 +110,12 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         {
             // exception but not interrupted
             this->set_interrupted(false);
-            m_state->complete();
-            // remove state from tss
-            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+            end_job();
             throw;
         }
         // ok we were not interrupted
         this->set_interrupted(false);
-        m_state->complete();
-        // remove state from tss
-        boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+        end_job();
     }
     template<class Archive>
     void serialize(Archive & , const unsigned int /* version */){/* not implemented */}
@@ -129,6 +125,26 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         return "";
     }
 
+private:
+    // the job is over: from now on, interrupting it no longer concerns this thread
+    void end_job()
+    {
+        bool interrupted = m_state->complete();
+        // remove state from tss
+        boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+        if (interrupted)
+        {
+            // an interruption which the job did not notice must not hit the next one
+            try
+            {
+                boost::this_thread::interruption_point();
+            }
+            catch(boost::thread_interrupted&)
+            {
+            }
+        }
+    }
+public:
     std::shared_ptr<std::promise<boost::thread*> >                    m_worker;
     std::shared_ptr<boost::asynchronous::detail::interrupt_state>     m_state;
     Job                                                               m_job;
-- 
2.43.0


From c03522e753418bb9e58fc17c3e0601880934e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 50/74] fix: subtasks posted while their task is being
 interrupted are interrupted too

---
 .../scheduler/detail/interrupt_state.hpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interrupt_state.hpp b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
index bb3b088..2941a22 100644
--- a/boost/asynchronous/scheduler/detail/interrupt_state.hpp
+++ b/boost/asynchronous/scheduler/detail/interrupt_state.hpp
@@ -92,13 +92,23 @@ struct interrupt_state
     template <class Iterator>
     void add_subs(Iterator beg, Iterator end)
     {
-        boost::mutex::scoped_lock lock(m_interruptibles_mutex);
-        m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        {
+            boost::mutex::scoped_lock lock(m_interruptibles_mutex);
+            m_interruptibles.insert(m_interruptibles.end(),beg,end);
+        }
+        // if an interruption came in between, it did not see these
+        if (is_interrupted())
+        {
+            for (;beg != end; ++beg)
+            {
+                (*beg).interrupt();
+            }
+        }
     }
     void add_sub(boost::asynchronous::any_interruptible const& i)
     {
-        boost::mutex::scoped_lock lock(m_interruptibles_mutex);
-        m_interruptibles.push_back(i);
+        boost::asynchronous::any_interruptible sub(i);
+        add_subs(&sub,&sub+1);
     }
 private:
     bool is_interrupted_int()const
-- 
2.43.0


From b6352eb96209d87359c3026ea7ce917aa9733522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 51/74] fix: an interrupted task starts no further subtasks

---
 boost/asynchronous/detail/continuation_impl.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index bbba46c..03c22eb 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -572,7 +572,7 @@ struct continuation
             // no interruptible requested
             boost::asynchronous::post_future(sched,std::forward<Front>(front),n,boost::asynchronous::get_own_queue_index<>());
         }
-        else
+        else if(!m_state->is_interrupted())
         {
             interruptibles.push_back(std::get<1>(boost::asynchronous::interruptible_post_future(sched,std::forward<Front>(front),n,boost::asynchronous::get_own_queue_index<>())));
         }
@@ -932,7 +932,7 @@ struct callback_continuation
             // no interruptible requested
             boost::asynchronous::post_future(sched,std::move(std::get<I>(front)),n,boost::asynchronous::get_own_queue_index<>());
         }
-        else
+        else if(!m_state->is_interrupted())
         {
             interruptibles.push_back(std::get<1>(
                                          boost::asynchronous::interruptible_post_future(sched,std::move(std::get<I>(front)),n,
@@ -1319,7 +1319,11 @@ struct callback_continuation_as_seq
                                (*finished).m_futures[index] = std::move(r);
                                finished->done();
                             });
-            if (index == l.size()-1)
+            if (!!m_state && m_state->is_interrupted())
+            {
+                // we are interrupted => no task starts any more
+            }
+            else if (index == l.size()-1)
             {
                 // we execute one task ourselves to save one post
                 try
@@ -1339,7 +1343,7 @@ struct callback_continuation_as_seq
                 // no interruptible requested
                 boost::asynchronous::post_future(sched,std::move(elem),n,boost::asynchronous::get_own_queue_index<>());
             }
-            else if(!m_state->is_interrupted())
+            else
             {
                 // interruptible requested
                 interruptibles.push_back(std::get<1>(
-- 
2.43.0


From 349d6b5fcbf14177a9529a9345296edb0e0ff035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 52/74] fix: a future-based continuation does not block its
 worker when it is interrupted

---
 boost/asynchronous/detail/continuation_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index 03c22eb..589a069 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -535,6 +535,9 @@ struct continuation
         }
         if (m_state)
             m_state->add_subs(interruptibles.begin(),interruptibles.end());
+        // an interruption makes the futures of our subtasks ready, so only these count.
+        // If we called on_done before, getting one of them could block this thread forever.
+        m_state.reset();
     }
     // version where we already get futures
     continuation(std::shared_ptr<boost::asynchronous::detail::interrupt_state> state,Tuple t, Duration d)
-- 
2.43.0


From 0bb235a246847a66537ecd86ec170e97ac984299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:00 +0000
Subject: [PATCH 53/74] fix: callback_continuation_as_seq read the size of a
 vector being moved by the last subtask (data race)

---
 boost/asynchronous/detail/continuation_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/detail/continuation_impl.hpp b/boost/asynchronous/detail/continuation_impl.hpp
index 589a069..a7d940a 100644
--- a/boost/asynchronous/detail/continuation_impl.hpp
+++ b/boost/asynchronous/detail/continuation_impl.hpp
@@ -1384,12 +1384,12 @@ struct callback_continuation_as_seq
     struct subtask_finished
     {
         subtask_finished(std::size_t number_of_tasks, bool , bool )
-            :m_futures(number_of_tasks),m_ready_futures(0),m_done()
+            :m_futures(number_of_tasks),m_number_of_tasks(number_of_tasks),m_ready_futures(0),m_done()
         {
         }
         void done()
         {
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
@@ -1398,14 +1398,14 @@ struct callback_continuation_as_seq
         void on_done(Func f)
         {
             m_done = std::move(f);
-            if (++m_ready_futures == m_futures.size()+1)
+            if (++m_ready_futures == m_number_of_tasks+1)
             {
                 return_result();
             }
         }
         bool is_ready()
         {
-            return m_ready_futures == m_futures.size()+1;
+            return m_ready_futures == m_number_of_tasks+1;
         }
         void set_interrupted()
         {
@@ -1417,6 +1417,8 @@ struct callback_continuation_as_seq
         }
 
         std::vector<boost::asynchronous::expected<Return> > m_futures;
+        // fixed: m_futures is moved away by the last subtask while others may still be checking if they are the last one
+        const std::size_t m_number_of_tasks;
         std::atomic<std::size_t> m_ready_futures;
         std::function<void(std::vector<boost::asynchronous::expected<Return> >)> m_done;
     };
-- 
2.43.0


From 318353c4f33b62f25496653194f63fdc45aa62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:54 +0000
Subject: [PATCH 54/74] fix: timed continuations did not accept every duration
 type

---
 boost/asynchronous/continuation_task.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/boost/asynchronous/continuation_task.hpp b/boost/asynchronous/continuation_task.hpp
index ade6035..bc1c51d 100644
--- a/boost/asynchronous/continuation_task.hpp
+++ b/boost/asynchronous/continuation_task.hpp
@@ -176,7 +176,7 @@ create_continuation_timeout(OnDone&& on_done, Duration const& d, Seq&& seq)
 {
     std::shared_ptr<boost::asynchronous::detail::interrupt_state> state = boost::asynchronous::get_interrupt_state<>();
 
-    boost::asynchronous::detail::continuation_as_seq<void,BOOST_ASYNCHRONOUS_DEFAULT_JOB,Seq> c (state,d,std::forward<Seq>(seq));
+    boost::asynchronous::detail::continuation_as_seq<void,BOOST_ASYNCHRONOUS_DEFAULT_JOB,Seq,Duration> c (state,d,std::forward<Seq>(seq));
     c.on_done(std::forward<OnDone>(on_done));
     boost::asynchronous::any_continuation a(std::move(c));
     boost::asynchronous::get_continuations().emplace_front(std::move(a));
@@ -263,7 +263,7 @@ create_continuation_job_timeout(OnDone&& on_done, Duration const& d, Args&&... a
     typedef decltype(std::make_tuple(std::forward<Args>(args)...)) future_type;
     future_type sp (std::make_tuple( std::forward<Args>(args)...));
 
-    boost::asynchronous::detail::continuation<void,Job,future_type> c (state,std::move(sp), d);
+    boost::asynchronous::detail::continuation<void,Job,future_type,Duration> c (state,std::move(sp), d);
     c.on_done(std::forward<OnDone>(on_done));
     boost::asynchronous::any_continuation a(std::move(c));
     boost::asynchronous::get_continuations().emplace_front(std::move(a));
@@ -286,7 +286,7 @@ create_continuation_job_timeout(OnDone&& on_done, Duration const& d, Args&&... a
     std::shared_ptr<boost::asynchronous::detail::interrupt_state> state = boost::asynchronous::get_interrupt_state<>();
 
     typedef decltype(boost::asynchronous::detail::make_future_tuple(args...)) future_type;
-    boost::asynchronous::detail::continuation<void,Job,future_type> c (
+    boost::asynchronous::detail::continuation<void,Job,future_type,Duration> c (
                 state,boost::asynchronous::detail::make_future_tuple(args...), d, std::forward<Args>(args)...);
     c.on_done(std::forward<OnDone>(on_done));
     boost::asynchronous::any_continuation a(std::move(c));
@@ -307,7 +307,7 @@ create_continuation_job_timeout(OnDone&& on_done, Duration const& d, Seq&& seq)
 {
     std::shared_ptr<boost::asynchronous::detail::interrupt_state> state = boost::asynchronous::get_interrupt_state<>();
 
-    boost::asynchronous::detail::continuation_as_seq<void,Job,Seq> c (state, d,std::forward<Seq>(seq));
+    boost::asynchronous::detail::continuation_as_seq<void,Job,Seq,Duration> c (state, d,std::forward<Seq>(seq));
     c.on_done(std::forward<OnDone>(on_done));
     boost::asynchronous::any_continuation a(std::move(c));
     boost::asynchronous::get_continuations().emplace_front(std::move(a));
@@ -469,7 +469,7 @@ template <typename Job,class OnDone, class Duration, typename Args>
 void create_callback_continuation_job_timeout(OnDone on_done, Duration const& d, std::vector<Args> args)
 {
     std::shared_ptr<boost::asynchronous::detail::interrupt_state> state = boost::asynchronous::get_interrupt_state<>();
-    boost::asynchronous::detail::callback_continuation_as_seq<typename Args::return_type,Job> c (
+    boost::asynchronous::detail::callback_continuation_as_seq<typename Args::return_type,Job,Duration> c (
                 state,d,
                 std::move(on_done),std::move(args));
     // no need of registration as no timeout checking
-- 
2.43.0


From da35d768672b5cdd214c3d371e9e27453b127d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 55/74] fix: a task which left its worker with
 thread_interrupted was never recorded by diagnostics and stayed current

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp    | 6 ++++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp  | 6 ++++++
 .../scheduler/multiqueue_threadpool_scheduler.hpp           | 6 ++++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp    | 6 ++++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp  | 6 ++++++
 .../scheduler/stealing_threadpool_scheduler.hpp             | 6 ++++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp       | 6 ++++++
 7 files changed, 42 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..4bc291f 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -394,6 +394,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index b7d28e0..b80800a 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -422,6 +422,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..b8a4ebe 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..a867397 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 99d1b51..01f3ff4 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -301,6 +301,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..3ad8afa 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -278,6 +278,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..6792a5b 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,12 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
-- 
2.43.0


From a8c377f6ad7f353efa246fca83e979b5a95bf8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 56/74] fix: summary_diagnostics mixed durations for recent
 values and compared with values never recorded

---
 boost/asynchronous/scheduler_diagnostics.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/boost/asynchronous/scheduler_diagnostics.hpp b/boost/asynchronous/scheduler_diagnostics.hpp
index bbf9109..923cd14 100644
--- a/boost/asynchronous/scheduler_diagnostics.hpp
+++ b/boost/asynchronous/scheduler_diagnostics.hpp
@@ -124,6 +124,10 @@ struct summary_diagnostic_item
 
     void merge(diagnostics_data<duration_stats> const& ds, diagnostics_data<time_stats> const& ts, diagnostics_data<std::size_t> const& cs, bool is_new)
     {
+        // Without any recorded value for a key before this merge, there is nothing to compare with
+
+        const diagnostics_data<std::size_t> previous = is_new ? diagnostics_data<std::size_t>{0, 0, 0, 0, 0} : count;
+
         // Update counts
         count.scheduling   += cs.scheduling;
         count.success      += cs.success;
@@ -145,7 +149,7 @@ struct summary_diagnostic_item
 
         // Update min, max and last times
 
-#define UPDATE_IF(key, minmax, op) if (is_new || ds.key.minmax op durations.key.minmax) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
+#define UPDATE_IF(key, minmax, op) if (cs.key > 0 && (previous.key == 0 || ds.key.minmax op durations.key.minmax)) { durations.key.minmax = ds.key.minmax; last_times.key.minmax = ts.key.minmax; }
 #define UPDATE_MIN_MAX(key) UPDATE_IF(key, max, >) UPDATE_IF(key, min, <)
 
         UPDATE_MIN_MAX(scheduling)
@@ -159,7 +163,7 @@ struct summary_diagnostic_item
 
         // Update recent times
 
-#define UPDATE_RECENT(key) if (is_new || ts.key.recent > last_times.key.recent) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
+#define UPDATE_RECENT(key) if (cs.key > 0 && (previous.key == 0 || ts.key.recent > last_times.key.recent)) { durations.key.recent = ds.key.recent; last_times.key.recent = ts.key.recent; }
 
         UPDATE_RECENT(scheduling)
         UPDATE_RECENT(success)
@@ -190,7 +194,7 @@ struct summary_diagnostics
     using time_stats = diagnostics_stats_unaccumulated<std::chrono::high_resolution_clock::time_point>;
 
     diagnostics_data<duration_stats> maxima; // We do not use .recent here.
-    diagnostics_data<bool> maxima_present;
+    diagnostics_data<bool> maxima_present = {false, false, false, false, false};
 
     bool has_fails = false;
     bool has_interrupts = false;
@@ -236,7 +240,7 @@ struct summary_diagnostics
                 std::chrono::nanoseconds scheduling = item.get_started_time() - item.get_posted_time();
                 if (job_count.scheduling == 0 || scheduling > job_durations.scheduling.max) { job_durations.scheduling.max = scheduling; job_last_times.scheduling.max = item.get_started_time(); }
                 if (job_count.scheduling == 0 || scheduling < job_durations.scheduling.min) { job_durations.scheduling.min = scheduling; job_last_times.scheduling.min = item.get_started_time(); }
-                if (job_count.scheduling == 0 || item.get_posted_time() > job_last_times.scheduling.recent) { job_durations.scheduling.recent = scheduling; job_last_times.scheduling.recent = item.get_started_time(); }
+                if (job_count.scheduling == 0 || item.get_started_time() > job_last_times.scheduling.recent) { job_durations.scheduling.recent = scheduling; job_last_times.scheduling.recent = item.get_started_time(); }
                 job_durations.scheduling.total += scheduling;
                 ++job_count.scheduling;
 
@@ -253,7 +257,7 @@ struct summary_diagnostics
                 {
                     if (job_count.failure == 0 || execution > job_durations.failure.max) { job_durations.failure.max = execution; job_last_times.failure.max = item.get_finished_time(); }
                     if (job_count.failure == 0 || execution < job_durations.failure.min) { job_durations.failure.min = execution; job_last_times.failure.min = item.get_finished_time(); }
-                    if (job_count.failure == 0 || item.get_finished_time() > job_last_times.failure.recent) { job_durations.failure.recent = total; job_last_times.failure.recent = item.get_finished_time(); }
+                    if (job_count.failure == 0 || item.get_finished_time() > job_last_times.failure.recent) { job_durations.failure.recent = execution; job_last_times.failure.recent = item.get_finished_time(); }
                     job_durations.failure.total += execution;
                     ++job_count.failure;
                 }
@@ -261,7 +265,7 @@ struct summary_diagnostics
                 {
                     if (job_count.interruption == 0 || execution > job_durations.interruption.max) { job_durations.interruption.max = execution; job_last_times.interruption.max = item.get_finished_time(); }
                     if (job_count.interruption == 0 || execution < job_durations.interruption.min) { job_durations.interruption.min = execution; job_last_times.interruption.min = item.get_finished_time(); }
-                    if (job_count.interruption == 0 || item.get_finished_time() > job_last_times.interruption.recent) { job_durations.interruption.recent = total; job_last_times.interruption.recent = item.get_finished_time(); }
+                    if (job_count.interruption == 0 || item.get_finished_time() > job_last_times.interruption.recent) { job_durations.interruption.recent = execution; job_last_times.interruption.recent = item.get_finished_time(); }
                     job_durations.interruption.total += execution;
                     ++job_count.interruption;
                 }
@@ -269,7 +273,7 @@ struct summary_diagnostics
                 {
                     if (job_count.success == 0 || execution > job_durations.success.max) { job_durations.success.max = execution; job_last_times.success.max = item.get_finished_time(); }
                     if (job_count.success == 0 || execution < job_durations.success.min) { job_durations.success.min = execution; job_last_times.success.min = item.get_finished_time(); }
-                    if (job_count.success == 0 || item.get_finished_time() > job_last_times.success.recent) { job_durations.success.recent = total; job_last_times.success.recent = item.get_finished_time(); }
+                    if (job_count.success == 0 || item.get_finished_time() > job_last_times.success.recent) { job_durations.success.recent = execution; job_last_times.success.recent = item.get_finished_time(); }
                     job_durations.success.total += execution;
                     ++job_count.success;
                 }
-- 
2.43.0


From b553189f33314e112cb82dc7001a73d23bc9ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:06 +0000
Subject: [PATCH 57/74] fix: diagnostics of a composite lost the tasks of a
 subpool having the name of a task of a previous one

---
 .../scheduler/composite_threadpool_scheduler.hpp   | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 048fe33..bdb992c 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -172,19 +172,13 @@ public:
     {
         if (pos==0)
         {
-            std::map<std::string,
-                     std::list<typename boost::asynchronous::job_traits<job_type>::diagnostic_item_type > > res;
-
-            std::vector<std::pair<std::string,typename boost::asynchronous::job_traits<Job>::diagnostic_item_type>> res2;
+            // tasks of different subpools can have the same name
+            boost::asynchronous::scheduler_diagnostics res;
             for (typename std::vector<subpool_type>::const_iterator it = m_subpools.begin(); it != m_subpools.end();++it)
             {
-                auto one_diag = (*it).get_diagnostics().totals();
-                res.insert(one_diag.begin(),one_diag.end());
-
-                auto one_diag2 = (*it).get_diagnostics().current();
-                res2.insert(res2.end(),one_diag2.begin(),one_diag2.end());
+                res.merge((*it).get_diagnostics());
             }
-            return boost::asynchronous::scheduler_diagnostics(res,res2);
+            return res;
         }
         else
         {
-- 
2.43.0


From cf1c3cc8ac3138996e609921ccc247265ddd06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:28 +0000
Subject: [PATCH 58/74] fix: diagnostics did not show as failed a posted task
 which left its worker with an exception

---
 boost/asynchronous/job_traits.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9da066f..9e53b62 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -141,8 +141,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            bool failed = m_callable.get_failed();
-            return failed;
+            // the failure can be noticed either by the callable itself or by the worker executing this job
+            return Base::get_failed() || m_callable.get_failed();
         }
         Fct m_callable;
     };
@@ -224,7 +224,8 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            return m_callable.get_failed();
+            // the failure can be noticed either by the callable itself or by the worker executing this job
+            return Base::get_failed() || m_callable.get_failed();
         }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
-- 
2.43.0


From dc2b0ccf58fdbbb9765c41dd479127a61ed06fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:33 +0000
Subject: [PATCH 59/74] fix: diagnostics showed interrupted tasks as failed
 ones or as successes

---
 .../diagnostics/default_loggable_job.hpp      |  6 +++++-
 .../diagnostics/diagnostic_item.hpp           |  2 +-
 boost/asynchronous/job_traits.hpp             |  8 ++++++++
 boost/asynchronous/post.hpp                   |  6 +++---
 .../scheduler/detail/interruptible_job.hpp    | 19 ++++++++++++++++---
 5 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/diagnostics/default_loggable_job.hpp b/boost/asynchronous/diagnostics/default_loggable_job.hpp
index f5f05b9..835b7b0 100644
--- a/boost/asynchronous/diagnostics/default_loggable_job.hpp
+++ b/boost/asynchronous/diagnostics/default_loggable_job.hpp
@@ -144,6 +144,10 @@ public:
     {
         return m_failed;
     }
+    virtual bool get_interrupted()const
+    {
+        return m_interrupted;
+    }
     void set_finished_time()
     {
         m_finished = Clock::now();
@@ -158,7 +162,7 @@ public:
     }
     boost::asynchronous::diagnostic_item get_diagnostic_item()const
     {
-        return boost::asynchronous::diagnostic_item(m_posted,m_started,m_finished,m_interrupted,get_failed(),m_executing_thread_id);
+        return boost::asynchronous::diagnostic_item(m_posted,m_started,m_finished,get_interrupted(),get_failed(),m_executing_thread_id);
     }
 private:
     std::string m_name;
diff --git a/boost/asynchronous/diagnostics/diagnostic_item.hpp b/boost/asynchronous/diagnostics/diagnostic_item.hpp
index 4559505..0ad1961 100644
--- a/boost/asynchronous/diagnostics/diagnostic_item.hpp
+++ b/boost/asynchronous/diagnostics/diagnostic_item.hpp
@@ -22,7 +22,7 @@ class diagnostic_item
 public:
     typedef std::chrono::high_resolution_clock Clock;
 
-    diagnostic_item():m_posted(),m_started(),m_finished(){}
+    diagnostic_item():m_posted(),m_started(),m_finished(),m_interrupted(false),m_failed(false),m_executing_thread_id(){}
     diagnostic_item(Clock::time_point const& posted,
                     Clock::time_point const& started,
                     Clock::time_point const& finished,
diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9e53b62..7c50341 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -144,6 +144,10 @@ namespace detail
             // the failure can be noticed either by the callable itself or by the worker executing this job
             return Base::get_failed() || m_callable.get_failed();
         }
+        virtual bool get_interrupted()const
+        {
+            return Base::get_interrupted() || m_callable.get_diagnostic_item().is_interrupted();
+        }
         Fct m_callable;
     };
     template <class Base, class Fct,class Enable=void>
@@ -227,6 +231,10 @@ namespace detail
             // the failure can be noticed either by the callable itself or by the worker executing this job
             return Base::get_failed() || m_callable.get_failed();
         }
+        virtual bool get_interrupted()const
+        {
+            return Base::get_interrupted() || m_callable.get_diagnostic_item().is_interrupted();
+        }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
         {
diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 8009e33..d29e798 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -124,7 +124,7 @@ namespace detail
             catch(boost::thread_interrupted&)
             {
                 boost::asynchronous::task_aborted_exception ta;
-                m_promise.set_exception(std::make_exception_ptr(ta));this->set_failed();
+                m_promise.set_exception(std::make_exception_ptr(ta));this->set_interrupted(true);
             }
             catch(...){m_promise.set_exception(std::current_exception());this->set_failed();}
         }
@@ -201,7 +201,7 @@ namespace detail
             catch(boost::thread_interrupted&)
             {
                 boost::asynchronous::task_aborted_exception ta;
-                m_promise.set_exception(std::make_exception_ptr(ta));this->set_failed();
+                m_promise.set_exception(std::make_exception_ptr(ta));this->set_interrupted(true);
             }
             catch(...){m_promise.set_exception(std::current_exception());this->set_failed();}
         }
@@ -261,7 +261,7 @@ namespace detail
             catch(boost::thread_interrupted&)
             {
                 boost::asynchronous::task_aborted_exception ta;
-                m_promise.set_exception(std::make_exception_ptr(ta));this->set_failed();
+                m_promise.set_exception(std::make_exception_ptr(ta));this->set_interrupted(true);
             }
             catch(...){m_promise.set_exception(std::current_exception());this->set_failed();}
         }
diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index f59c93e..52f9f37 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -73,7 +73,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         this->set_interrupted(true);
         // copy what we need from contained job
         // TODO something better...
-        this->set_name(boost::asynchronous::job_traits<Job>::get_name(job));
+        this->set_name(boost::asynchronous::job_traits<Job>::get_name(m_job));
         this->set_posted_time();
     }
 
@@ -113,8 +113,12 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             end_job();
             throw;
         }
-        // ok we were not interrupted
-        this->set_interrupted(false);
+        // ok we were not interrupted, unless the job noticed it and handled it, or the exception of the task, itself
+        this->set_interrupted(job_was_interrupted(boost::asynchronous::job_traits<Job>::get_diagnostic_item(m_job)));
+        if (boost::asynchronous::job_traits<Job>::get_failed(m_job))
+        {
+            this->set_failed();
+        }
         end_job();
     }
     template<class Archive>
@@ -126,6 +130,15 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
     }
 
 private:
+    static bool job_was_interrupted(boost::asynchronous::diagnostic_item const& item)
+    {
+        return item.is_interrupted();
+    }
+    // the job has no diagnostics
+    static bool job_was_interrupted(boost::asynchronous::no_diagnostics const&)
+    {
+        return false;
+    }
     // the job is over: from now on, interrupting it no longer concerns this thread
     void end_job()
     {
-- 
2.43.0


From bf97110d0611b46504149ad1ee0db5b08caa6600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 60/74] fix: publishing never ended if a subscriber subscribed
 again while handling the event

---
 boost/asynchronous/notification/local_subscription.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 7c628d6..8536cc9 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -180,7 +180,9 @@ struct local_subscription
     {
         ++m_publish_counter;
         bool someone_handled = false;
-        for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end();++it)
+        // a subscriber can subscribe (again) while handling the event. New subscriptions have a higher token and only get later events
+        const std::int64_t last_token = m_internal_subscribers.empty() ? -1 : m_internal_subscribers.rbegin()->first;
+        for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end() && (*it).first <= last_token;++it)
         {
             if (std::get<subscriber_t>((*it).second) && !std::get<bool>((*it).second) && std::get<Topic>((*it).second).matches(other_topic))
             {
-- 
2.43.0


From ec756db74214166cf0e28df85385e8034fd4d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:03 +0000
Subject: [PATCH 61/74] fix: servants got no more events from other schedulers
 once the last subscriber of their scheduler was gone

---
 boost/asynchronous/trackable_servant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 60f80a5..571e8e6 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -602,7 +602,7 @@ public:
 
             // publishing to other schedulers will mean calling this function, 
             // which will post_future to our scheduler
-            auto wrapped = [tracking, uid, weak, task_name, prio]
+            auto wrapped = [uid, weak, task_name, prio]
             (Event const& ev, Topic const& published_topic)
                 {
                     auto sched = weak.lock();
@@ -610,14 +610,15 @@ public:
                     {
                         // not in our thread, post
                         boost::asynchronous::post_future(sched,
-                            boost::asynchronous::move_bind(boost::asynchronous::check_alive([weak](Event const& ev, Topic const& published_topic)
+                            // this informs all servants of our scheduler, so it must not depend on this servant being alive
+                            boost::asynchronous::move_bind([weak](Event const& ev, Topic const& published_topic)
                                 {
                                     auto sched = weak.lock();
                                     if (sched.is_valid())
                                     {
                                         sched.publish_internal(ev, published_topic);
                                     }
-                                }, tracking), ev, published_topic),
+                                }, ev, published_topic),
                             task_name, prio);
                     }
                     else
-- 
2.43.0


From 5c6b5afa97c268cccb08229739f7ce8dd50143a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:46 +0000
Subject: [PATCH 62/74] fix: a scheduler which unsubscribed and subscribed
 again lost its subscription at the next event

---
 boost/asynchronous/notification/local_subscription.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 8536cc9..284fb79 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -72,6 +72,15 @@ struct local_subscription
     template <class Sub>
     void subscribe_scheduler(Sub&& sub, boost::uuids::uuid scheduler_id, Topic const& topic)
     {
+        // a previous unsubscribe which did not take effect yet must not hit the new subscription
+        m_deleted_scheduler_subscribers.erase(
+            std::remove_if(m_deleted_scheduler_subscribers.begin(), m_deleted_scheduler_subscribers.end(),
+                [&](const auto& deleted)
+                {
+                    return (scheduler_id == std::get<boost::uuids::uuid>(deleted))
+                        && (std::get<std::optional<Topic>>(deleted).has_value()) && (std::get<std::optional<Topic>>(deleted).value() == topic);
+                }),
+            m_deleted_scheduler_subscribers.end());
         // do not register double entries
         auto it = std::find_if(m_scheduler_subscribers.begin(), m_scheduler_subscribers.end(),
             [&](const auto& s)
-- 
2.43.0


From b499d78124c02b7bc51d05d8757fe761d21e1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:12 +0000
Subject: [PATCH 63/74] fix: an event matching several topics of another
 scheduler was delivered several times to its subscribers

---
 .../notification/local_subscription.hpp             | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 284fb79..be34a8a 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -172,11 +172,18 @@ struct local_subscription
         // inform first other schedulers
         // to avoid event order inversion in case processing an event would send another event
         // external schedulers execute publishing asynchronously and therefore are not counted as handling the event
-        for (auto& sched_sub : m_scheduler_subscribers)
+        for (auto it = m_scheduler_subscribers.begin(); it != m_scheduler_subscribers.end(); ++it)
         {
-            if (std::get<Topic>(sched_sub).matches(other_topic))
+            // a scheduler informs all its matching subscribers, so it gets the event once, even if several of its topics match
+            auto matching = [&other_topic](auto const& s) { return std::get<Topic>(s).matches(other_topic); };
+            bool already_informed = std::any_of(m_scheduler_subscribers.begin(), it,
+                [&](auto const& s)
+                {
+                    return std::get<boost::uuids::uuid>(s) == std::get<boost::uuids::uuid>(*it) && matching(s);
+                });
+            if (!already_informed && matching(*it))
             {
-                std::get<subscriber_t>(sched_sub)(e, other_topic);
+                std::get<subscriber_t>(*it)(e, other_topic);
             }
         }
         bool res = publish_internal(std::forward<Ev>(e), other_topic);
-- 
2.43.0


From 3464b2480cc8ea56416dea5b31cb8db3d32f5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:33 +0000
Subject: [PATCH 64/74] fix: in a composite with several job types, pools stole
 from themselves instead of from a pool of another type

---
 .../asynchronous/scheduler/composite_threadpool_scheduler.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index bdb992c..65809da 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -273,7 +273,8 @@ private:
     add_queue_helper(T& t,S& s)
     {
         std::vector<boost::asynchronous::any_queue_ptr<job_type> > q = (*(s).get_internal_scheduler_aspect()).get_queues();
-        t.push_back(q);
+        // keep the queues of our sub-pools at the index of their pool (just added), before those of other job types
+        t.insert(t.begin() + (m_subpools.size() - 1),q);
     }
     template <class T,class S>
     typename std::enable_if< !std::is_same<job_type, typename S::job_type>::value,void >::type
-- 
2.43.0


From 19bfd387f7f1c770acd86b649aa4596fcd993132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 65/74] fix: locking the weak scheduler of a dead composite
 gave a valid scheduler which silently dropped tasks

---
 .../scheduler/composite_threadpool_scheduler.hpp             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 65809da..b6abfab 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -536,6 +536,11 @@ private:
                     locked_schedulers.emplace_back(std::move(s));
                 }
             }
+            if (locked_schedulers.empty())
+            {
+                // all our pools are gone, whoever locks us must be able to find it out
+                return any_shared_scheduler<job_type>();
+            }
             std::shared_ptr<lockable_shared_scheduler> s = std::make_shared<lockable_shared_scheduler>(std::move(locked_schedulers));
             any_shared_scheduler_ptr<job_type> pscheduler(std::move(s));
             return any_shared_scheduler<job_type>(std::move(pscheduler));
-- 
2.43.0


From fa2a9b2fe7973d1dffa9337dc5ab224db08ed249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 66/74] fix: io_threadpool_scheduler(min,max) with min > max
 accessed private queues which do not exist

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 4bc291f..63777db 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -60,8 +60,8 @@ public:
         : boost::asynchronous::detail::single_queue_scheduler_policy<Q>(std::make_shared<queue_type>(std::move(args)...))
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
@@ -73,8 +73,8 @@ public:
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
         , m_name(name)
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
-- 
2.43.0


From e5beaf59bb16130da156b1161a9cfddb77701ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 67/74] fix: execute_in_all_threads of an io pool waited for
 threads above the minimum, which never execute it

---
 .../scheduler/io_threadpool_scheduler.hpp           | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 63777db..e3d8e59 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -285,7 +285,8 @@ public:
     void set_name(std::string const& name)
     {
         boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-        for (size_t i = 0; i< m_data->m_thread_ids.size();++i)
+        // only basic (always present) threads serve a private queue
+        for (size_t i = 0; i< m_data->m_min_number_of_workers;++i)
         {
             boost::asynchronous::detail::set_name_task<typename Q::diagnostic_type> ntask(name);
 #ifndef BOOST_NO_RVALUE_REFERENCES
@@ -302,11 +303,8 @@ public:
     }
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p)
     {
-        std::size_t idsize=0;
-        {
-            boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
-        }
+        // only basic (always present) threads serve a private queue
+        const std::size_t idsize=m_data->m_min_number_of_workers;
         // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
         size_t t = 0;
         for(auto const& v : p)
@@ -322,10 +320,9 @@ public:
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c)
     {
         std::vector<std::future<void>> res;
-        std::size_t idsize=0;
+        const std::size_t idsize=m_data->m_min_number_of_workers;
         {
             boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
             // remember waiting callable for newly created threads
             m_data->m_execute_in_all_threads.push_back(c);
         }
-- 
2.43.0


From b899772fe83a5fd96787c4fb6258bd82c1362152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 68/74] fix: an exception from an execute_in_all_threads task
 terminated the program when an io pool started another thread

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index e3d8e59..3c14680 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -511,7 +511,14 @@ public:
         // execute tasks which were given to us and have to be executed in all threads
         for (auto& c : execute_in_all_threads_tasks)
         {
-            c();
+            try
+            {
+                c();
+            }
+            catch(...)
+            {
+                // nobody to report to, but this thread still has to do its job
+            }
         }
         // we run once then end
         do
-- 
2.43.0


From 356d9e1bdd6a9d4ffde9f12daae08c4c9c230479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:08 +0000
Subject: [PATCH 69/74] fix: continuations waiting in a thread of an io pool
 above the minimum were lost when the thread ended

---
 .../scheduler/io_threadpool_scheduler.hpp            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 3c14680..98ce3ec 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -179,7 +179,7 @@ public:
                         // make this thread an old thread
                         data->thread_finished(p);
                     };
-            std::function<bool()> c = [data]()mutable{return data->test_worker_loop();};
+            std::function<bool(bool)> c = [data](bool has_waiting)mutable{return data->test_worker_loop(has_waiting);};
             boost::thread* new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
                                                                 m_private_queues[m_data->m_current_number_of_workers-1],
@@ -492,7 +492,7 @@ public:
                          std::shared_future<boost::thread*> self,
                          std::weak_ptr<this_type> this_,
                          std::function<void(boost::thread*)> on_done,
-                         std::function<bool()> check_continue,
+                         std::function<bool(bool)> check_continue,
                          size_t index,
                          std::string name,
                          std::vector<boost::asynchronous::any_callable> execute_in_all_threads_tasks)
@@ -547,7 +547,7 @@ public:
                 // TODO, user-defined error
             }
         }
-        while (check_continue());
+        while (check_continue(!waiting.empty()));
         on_done(t);
     }
 
@@ -571,11 +571,11 @@ private:
              return std::accumulate(vec_sizes.begin(),vec_sizes.end(), (std::size_t)0,[](std::size_t a, std::size_t b){return a+b;});
         }
         // checks if worker thread should continue
-        // if queue not empty, continue
-        bool test_worker_loop()
+        // if queue not empty, or continuations are still waiting in this thread, continue
+        bool test_worker_loop(bool has_waiting)
         {
            boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
-           bool res = (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
+           bool res = has_waiting || (this->calculate_queue_size() != 0);//(m_current_number_of_workers > m_min_number_of_workers);
            /*if (res)
            {
                --m_current_number_of_workers;
-- 
2.43.0


From e1770148ad5f84ba70022e1f7a52386b38d57b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:45 +0000
Subject: [PATCH 70/74] fix: the exception of an execute_in_all_threads task
 was replaced by broken_promise

---
 .../scheduler/detail/execute_in_all_threads.hpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..81fe077 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,15 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 47ffca7bdd9b93695ee3cd21f63cff1dfa2575da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:44 +0000
Subject: [PATCH 71/74] fix: threads of an io pool shared a diagnostics slot
 after another one ended

---
 .../scheduler/io_threadpool_scheduler.hpp     | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 98ce3ec..093c9ba 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -171,20 +171,22 @@ public:
             std::promise<boost::thread*> new_thread_promise;
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             auto data = m_data;
+            // no other living thread uses this index
+            const size_t index = m_data->take_index();
             std::function<void(boost::thread*)> d =
-                    [data](boost::thread* p)mutable
+                    [data,index](boost::thread* p)mutable
                     {
                         // join older threads
                         data->cleanup_threads();
                         // make this thread an old thread
-                        data->thread_finished(p);
+                        data->thread_finished(p,index);
                     };
             std::function<bool(bool)> c = [data](bool has_waiting)mutable{return data->test_worker_loop(has_waiting);};
             boost::thread* new_thread =
                      m_data->m_group->create_thread(std::bind(&io_threadpool_scheduler::run_once,this->m_queue,
-                                                                m_private_queues[m_data->m_current_number_of_workers-1],
+                                                                m_private_queues[index],
                                                                 m_diagnostics,fu,m_data->m_weak_self,d,c,
-                                                                m_data->m_current_number_of_workers-1,
+                                                                index,
                                                                 m_name,
                                                                 m_data->m_execute_in_all_threads));
             m_data->m_thread_ids.insert(new_thread->get_id());
@@ -530,7 +532,6 @@ public:
             }
             catch(boost::asynchronous::detail::shutdown_exception&)
             {
-                on_done(t);
                 // we are done
                 break;
             }
@@ -562,7 +563,17 @@ private:
         , m_weak_self()
         , m_group(std::make_shared<boost::thread_group>())
         , m_queue(queue)
+        , m_used_indexes(m_max_number_of_workers,false)
         {}
+        // index of a new thread above the minimum. Called with m_current_number_of_workers_mutex locked
+        size_t take_index()
+        {
+            size_t index = m_min_number_of_workers;
+            while (m_used_indexes[index])
+                ++index;
+            m_used_indexes[index] = true;
+            return index;
+        }
 
         // check queue size. Used to find out when temporary threads have to shutdown
         std::size_t calculate_queue_size()const
@@ -583,12 +594,13 @@ private:
            return res && !m_joining;
         }
 
-        void thread_finished(boost::thread* finished_thread)
+        void thread_finished(boost::thread* finished_thread, size_t index)
         {
             // update number of workers
             {
                 boost::mutex::scoped_lock lock(m_current_number_of_workers_mutex);
                 --m_current_number_of_workers;
+                m_used_indexes[index] = false;
                 m_thread_ids.erase(finished_thread->get_id());
             }
             // update set of finished threads
@@ -641,6 +653,8 @@ private:
         std::weak_ptr<this_type> m_weak_self;
         std::shared_ptr<boost::thread_group> m_group;
         std::shared_ptr<queue_type> m_queue;
+        // indexes of living threads above the minimum
+        std::vector<bool> m_used_indexes;
         // remembers if the thread group has already been given for joining. If yes, no thread will be created
         bool m_joining=false;
         // pass them to any newly created thread
-- 
2.43.0


From b7a682323a00244f9d126d39e1a877f8bd1eadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:39 +0000
Subject: [PATCH 72/74] fix: execute_in_all_threads of an asio pool could run
 several times in one thread and never in another

---
 .../extensions/asio/asio_scheduler.hpp        | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f005741..af40741 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -26,6 +26,7 @@
 #include <boost/asynchronous/job_traits.hpp>
 #include <boost/asynchronous/detail/any_joinable.hpp>
 #include <boost/asynchronous/queue/any_queue.hpp>
+#include <boost/asynchronous/queue/lockfree_queue.hpp>
 #include <boost/asynchronous/exceptions.hpp>
 #include <boost/asynchronous/job_traits.hpp>
 #include <boost/asynchronous/queue/find_queue_position.hpp>
@@ -60,6 +61,8 @@ class asio_scheduler :
 public:
     typedef boost::asynchronous::any_callable job_type;
     typedef asio_scheduler<FindPosition,CPULoad> this_type;
+    // jobs which only one given thread may execute (unlike those of the io_services, which idle threads poll for each other)
+    typedef boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> private_queue_type;
     
     asio_scheduler(size_t number_of_workers=1,bool immediate=true,std::string const& name="")
         : m_next_shutdown_bucket(0)
@@ -88,6 +91,7 @@ public:
     {
         m_works.reserve(number_of_workers);
         m_ioservices.reserve(number_of_workers);
+        m_private_queues.reserve(number_of_workers);
         m_group.reset(new boost::thread_group);
         std::vector<std::shared_future<void> > all_threads_started;
         all_threads_started.reserve(number_of_workers);
@@ -97,6 +101,7 @@ public:
             std::shared_ptr<boost::asio::io_context> ioservice = std::make_shared<boost::asio::io_context>();
             m_ioservices.push_back(ioservice);
             m_works.push_back(boost::asio::make_work_guard(*ioservice));
+            m_private_queues.push_back(std::make_shared<private_queue_type>());
         }
         for (size_t i=0; i<number_of_workers; ++i)
         {
@@ -108,7 +113,7 @@ public:
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             std::shared_ptr<std::promise<void> > p(new std::promise<void>);
             boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],fu,p,other_ioservices,others,weak_self));
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],m_private_queues[i],fu,p,other_ioservices,others,weak_self));
             all_threads_started.push_back(p->get_future());
             new_thread_promise.set_value(new_thread);
 
@@ -140,15 +145,10 @@ public:
     }
     void set_name(std::string const& name)
     {
-        for (size_t i = 1; i<= m_ioservices.size();++i)
+        for (size_t i = 0; i< m_private_queues.size();++i)
         {
             boost::asynchronous::detail::set_name_task<typename boost::asynchronous::job_traits<job_type>::diagnostic_type> ntask(name);
-#ifndef BOOST_NO_RVALUE_REFERENCES
-            job_type job(ntask);
-            this->post(std::move(job),i);
-#else
-            this->post(job_type(ntask),i);
-#endif
+            m_private_queues[i]->push(boost::asynchronous::any_callable(std::move(ntask)),std::numeric_limits<std::size_t>::max());
         }
     }
     std::string get_name()const override
@@ -161,32 +161,28 @@ public:
     }
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p) override
     {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
+        // our thread (queue) index.
+        size_t t = 0;
         for(auto const& v : p)
         {
-            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
+            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_private_queues.size()) ;++i)
             {
                 boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
-                job_type job(std::move(task));
-                this->post(std::move(job),t++);
+                m_private_queues[t++]->push(boost::asynchronous::any_callable(std::move(task)),std::numeric_limits<std::size_t>::max());
             }
         }
     }
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c) override
     {
-        // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
-        size_t t = 1;
         std::vector<std::future<void>> res;
-        res.reserve(m_number_of_workers);
-        for (size_t i = 0; i< m_number_of_workers;++i)
+        res.reserve(m_private_queues.size());
+        for (size_t i = 0; i< m_private_queues.size();++i)
         {
             std::promise<void> p;
             auto fu = p.get_future();
             res.emplace_back(std::move(fu));
             boost::asynchronous::detail::execute_in_all_threads_task task(c,std::move(p));
-            job_type job(std::move(task));
-            this->post(std::move(job),t++);
+            m_private_queues[i]->push(boost::asynchronous::any_callable(std::move(task)),std::numeric_limits<std::size_t>::max());
         }
         return res;
     }
@@ -381,7 +377,17 @@ public:
     static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
     
 private:
-    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_future<boost::thread*> self,
+    static bool execute_one_private_job(std::shared_ptr<private_queue_type> const& private_queue)
+    {
+        boost::asynchronous::any_callable job;
+        bool popped = private_queue->try_pop(job);
+        if (popped)
+        {
+            job();
+        }
+        return popped;
+    }
+    static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_ptr<private_queue_type> private_queue,std::shared_future<boost::thread*> self,
                     std::shared_ptr<std::promise<void> > started,
                     std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
                     std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
@@ -464,10 +470,13 @@ private:
                 }
                 // remove state from tss
                 boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
+                // jobs for this thread only
+                execute_one_private_job(private_queue);
             }
             catch(boost::asynchronous::detail::shutdown_exception&)
             {
-                // we are done
+                // we are done, except for the jobs nobody else may execute
+                while(execute_one_private_job(private_queue));
                 delete m_self_thread.release();
                 return;
             }
@@ -492,6 +501,7 @@ private:
     size_t m_number_of_workers;
     std::vector<boost::asio::executor_work_guard<boost::asio::io_context::executor_type>> m_works;
     std::vector<std::shared_ptr<boost::asio::io_context > > m_ioservices;
+    std::vector<std::shared_ptr<private_queue_type>> m_private_queues;
     std::shared_ptr<boost::thread_group> m_group;
     std::vector<boost::thread::id> m_thread_ids;
     std::weak_ptr<this_type> m_weak_self;
-- 
2.43.0


From ef1c5ee60d0103ab0c926ba4e8c4422c859e4a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:23 +0000
Subject: [PATCH 73/74] fix: putting a running asio pool into a composite
 started its threads a second time, lost tasks and leaked threads

---
 .../extensions/asio/asio_scheduler.hpp        | 45 +++++++++++++++++--
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index af40741..7e83a66 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -13,6 +13,7 @@
 #include <vector>
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <future>
 #include <functional>
 
@@ -67,6 +68,7 @@ public:
     asio_scheduler(size_t number_of_workers=1,bool immediate=true,std::string const& name="")
         : m_next_shutdown_bucket(0)
         , m_number_of_workers(number_of_workers)
+        , m_others(std::make_shared<other_queues_holder>())
         , m_immediate(immediate)
         , m_name(name)
     {
@@ -92,6 +94,7 @@ public:
         m_works.reserve(number_of_workers);
         m_ioservices.reserve(number_of_workers);
         m_private_queues.reserve(number_of_workers);
+        m_others->set(others);
         m_group.reset(new boost::thread_group);
         std::vector<std::shared_future<void> > all_threads_started;
         all_threads_started.reserve(number_of_workers);
@@ -113,7 +116,7 @@ public:
             std::shared_future<boost::thread*> fu = new_thread_promise.get_future();
             std::shared_ptr<std::promise<void> > p(new std::promise<void>);
             boost::thread* new_thread =
-                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],m_private_queues[i],fu,p,other_ioservices,others,weak_self));
+                    m_group->create_thread(std::bind(&asio_scheduler::run,m_ioservices[i],m_private_queues[i],fu,p,other_ioservices,m_others,weak_self));
             all_threads_started.push_back(p->get_future());
             new_thread_promise.set_value(new_thread);
 
@@ -211,7 +214,15 @@ public:
     void set_steal_from_queues(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& others)
     {
         // this scheduler steals if offered
-        init(m_number_of_workers,others,m_weak_self);
+        if (m_group)
+        {
+            // our threads are already running, tell them
+            m_others->set(others);
+        }
+        else
+        {
+            init(m_number_of_workers,others,m_weak_self);
+        }
     }
 
 #ifndef BOOST_NO_RVALUE_REFERENCES    
@@ -377,6 +388,30 @@ public:
     static boost::thread_specific_ptr<thread_ptr_wrapper> m_self_thread;
     
 private:
+    // queues of other pools which our threads can steal from. Set by a composite pool, possibly when the threads are already running
+    struct other_queues_holder
+    {
+        void set(std::vector<boost::asynchronous::any_queue_ptr<job_type> > const& queues)
+        {
+            std::lock_guard<std::mutex> lock(m_mutex);
+            m_queues = queues;
+            ++m_version;
+        }
+        // updates queues if they changed since version
+        void update(std::vector<boost::asynchronous::any_queue_ptr<job_type> >& queues, std::size_t& version)
+        {
+            if (m_version.load() != version)
+            {
+                std::lock_guard<std::mutex> lock(m_mutex);
+                queues = m_queues;
+                version = m_version.load();
+            }
+        }
+    private:
+        std::mutex m_mutex;
+        std::vector<boost::asynchronous::any_queue_ptr<job_type> > m_queues;
+        std::atomic<std::size_t> m_version{0};
+    };
     static bool execute_one_private_job(std::shared_ptr<private_queue_type> const& private_queue)
     {
         boost::asynchronous::any_callable job;
@@ -390,7 +425,7 @@ private:
     static void run(std::shared_ptr<boost::asio::io_context> ioservice,std::shared_ptr<private_queue_type> private_queue,std::shared_future<boost::thread*> self,
                     std::shared_ptr<std::promise<void> > started,
                     std::vector<std::shared_ptr<boost::asio::io_context > > other_ioservices,
-                    std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues,
+                    std::shared_ptr<other_queues_holder> others,
                     std::weak_ptr<this_type> this_)
     {
         boost::thread* t = self.get();
@@ -404,6 +439,8 @@ private:
         std::list<boost::asynchronous::any_continuation>& waiting =
                 boost::asynchronous::get_continuations(std::list<boost::asynchronous::any_continuation>(),true);
 
+        std::vector<boost::asynchronous::any_queue_ptr<job_type> > other_queues;
+        std::size_t other_queues_version = 0;
         CPULoad cpu_load;
         while(true)
         {
@@ -432,6 +469,7 @@ private:
                 if (!popped)
                 {                    
                     // ok we have nothing to do, maybe we can steal some work from other pools?
+                    others->update(other_queues,other_queues_version);
                     for (std::size_t i=0; i< other_queues.size(); ++i)
                     {
                         stolen = (*other_queues[i]).try_steal(job);
@@ -504,6 +542,7 @@ private:
     std::vector<std::shared_ptr<private_queue_type>> m_private_queues;
     std::shared_ptr<boost::thread_group> m_group;
     std::vector<boost::thread::id> m_thread_ids;
+    std::shared_ptr<other_queues_holder> m_others;
     std::weak_ptr<this_type> m_weak_self;
     bool m_immediate;
     const std::string m_name;
-- 
2.43.0


From 19b28666fc32af8b4f545ab7b72a401b964ca323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:35 +0000
Subject: [PATCH 74/74] fix: vector never destroyed elements when an insert,
 emplace, erase, reallocation or copy threw

---
 boost/asynchronous/container/vector.hpp | 66 +++++++++++++++++++++++++
 1 file changed, 66 insertions(+)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 1faac20..e10c161 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -29,6 +29,26 @@ namespace boost { namespace asynchronous
 {
 namespace detail
 {
+// destroys elements constructed with placement new unless released
+template <class T>
+struct placement_guard
+{
+    placement_guard(T* data, std::size_t size)
+        : m_data(data), m_size(size){}
+    placement_guard(placement_guard const&)=delete;
+    placement_guard& operator=(placement_guard const&)=delete;
+    ~placement_guard()
+    {
+        boost::asynchronous::detail::serial_dtor<T,std::size_t>((std::size_t)0,m_size,(char*)m_data);
+    }
+    void release()
+    {
+        m_size=0;
+    }
+
+    T* m_data;
+    std::size_t m_size;
+};
 // helper for destructors, avoids c++14 move lambda
 template <class T>
 struct move_only :  public boost::asynchronous::continuation_task<void>
@@ -362,6 +382,8 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,n,(char*)raw.get(),T());
         }
+        // destroys the elements if an exception is thrown by a copy, as our destructor will not be called
+        boost::asynchronous::detail::placement_guard<T> guard(raw.get(),n);
 
         // copy
         auto beg_it = begin();
@@ -383,6 +405,7 @@ public:
         {
             std::copy(other_beg_it,other_end_it,beg_it);
         }
+        guard.release();
     }
     vector( boost::asynchronous::any_shared_scheduler_proxy<Job> scheduler,long cutoff,
             std::initializer_list<T> init,
@@ -957,6 +980,9 @@ public:
                 boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
             }
 
+            // destroys the temporary elements if an exception is thrown before we do it
+            boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
             // move to temporary buffer
             auto temp_begin = (iterator)raw.get();
             if (m_scheduler.is_valid())
@@ -1017,6 +1043,7 @@ public:
             {
                 boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)first);
             }
+            temp_guard.release();
             std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                     std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
             if (m_scheduler.is_valid())
@@ -1090,6 +1117,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // destroys the temporary elements if an exception is thrown before we do it
+        boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1126,6 +1156,8 @@ public:
         auto to_add = 1;
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
+        // destroys the added elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> added_guard((T*)where,to_add);
 
         // add input using placement new
         ((T*) pos)->~T();
@@ -1163,6 +1195,7 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
+        temp_guard.release();
         std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                 std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -1187,6 +1220,7 @@ public:
             temp_deleter->size_=0;
         }
         // update size
+        added_guard.release();
         ++m_size;
         ++m_data->size_;
 
@@ -1235,6 +1269,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // destroys the temporary elements if an exception is thrown before we do it
+        boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1289,6 +1326,8 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // destroys the added elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> added_guard((T*)where,to_add);
         // copy input
         if (m_scheduler.is_valid())
         {
@@ -1337,6 +1376,7 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
+        temp_guard.release();
         std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                 std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -1361,6 +1401,7 @@ public:
             temp_deleter->size_=0;
         }
         // update size
+        added_guard.release();
         m_size += (last-first);
         m_data->size_ += (last-first);
 
@@ -1405,6 +1446,9 @@ public:
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
 
+        // destroys the temporary elements if an exception is thrown before we do it
+        boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1441,6 +1485,8 @@ public:
         auto to_add = 1;
         auto where = ((iterator)m_data->data())+ size();
         boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
+        // destroys the added elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> added_guard((T*)where,to_add);
 
         // copy input
         *pos = std::move(temp);
@@ -1476,6 +1522,7 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
+        temp_guard.release();
         std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                 std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -1500,6 +1547,7 @@ public:
             temp_deleter->size_=0;
         }
         // update size
+        added_guard.release();
         ++m_size;
         ++m_data->size_;
 
@@ -1541,6 +1589,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
+        // destroys the temporary elements if an exception is thrown before we do it
+        boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1595,6 +1646,8 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // destroys the added elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> added_guard((T*)where,to_add);
 
         // copy input
         T a[1] = {std::forward<T>(value)};
@@ -1645,6 +1698,7 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
+        temp_guard.release();
         std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                 std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -1669,6 +1723,7 @@ public:
             temp_deleter->size_=0;
         }
         // update size
+        added_guard.release();
         ++m_size;
         ++m_data->size_;
 
@@ -1718,6 +1773,9 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)n,(char*)raw.get(),T());
         }
+        // destroys the temporary elements if an exception is thrown before we do it
+        boost::asynchronous::detail::placement_guard<T> temp_guard((T*)raw.get(),n);
+
         // move to temporary buffer
         auto temp_begin = (iterator)raw.get();
         auto cur_begin = pos;
@@ -1772,6 +1830,8 @@ public:
         {
             boost::asynchronous::detail::serial_placement<T,std::size_t>((std::size_t)0,(std::size_t)to_add,(char*)where,T());
         }
+        // destroys the added elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> added_guard((T*)where,to_add);
 
         // copy input
         if (m_scheduler.is_valid())
@@ -1821,6 +1881,7 @@ public:
             boost::asynchronous::serial_move_if_noexcept(temp_begin,temp_end,(iterator)beg_move_back);
         }
         // call dtors on temp
+        temp_guard.release();
         std::shared_ptr<boost::asynchronous::placement_deleter<T,Job>> temp_deleter =
                 std::make_shared<boost::asynchronous::placement_deleter<T,Job>>(n,std::move(raw),cutoff,task_name,prio);
         if (m_scheduler.is_valid())
@@ -1845,6 +1906,7 @@ public:
             temp_deleter->size_=0;
         }
         // update size
+        added_guard.release();
         m_size += count;
         m_data->size_ += count;
 
@@ -1961,6 +2023,9 @@ private:
         auto new_data =  std::make_shared<boost::asynchronous::placement_deleter<T,Job,std::shared_ptr<T>>>
                 (n,std::move(raw),cutoff,task_name,prio);
 
+        // destroys the new elements if an exception is thrown before they belong to us
+        boost::asynchronous::detail::placement_guard<T> new_guard(new_data->data(),n);
+
         auto beg_it = begin();
         auto end_it = end();
 
@@ -1993,6 +2058,7 @@ private:
         {
             boost::asynchronous::serial_move_if_noexcept(beg_it,end_it,(iterator)(new_data->data()));
         }
+        new_guard.release();
         // destroy our old data (wait until done)
         if (m_scheduler.is_valid() && !!m_data)
         {
-- 
2.43.0

