From 36fe50c08aed435bfab093a6bf5dbd5bc4fc60a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:22 +0000
Subject: [PATCH 001/111] fix: keep the best instead of the worst solutions
 when a fitness/diversity archive is full

---
 moeo/src/archive/moeoFitDivBoundedArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoFitDivBoundedArchive.h b/moeo/src/archive/moeoFitDivBoundedArchive.h
index 32e13ec..bd5e8f6 100644
--- a/moeo/src/archive/moeoFitDivBoundedArchive.h
+++ b/moeo/src/archive/moeoFitDivBoundedArchive.h
@@ -156,7 +156,7 @@ private:
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            return comp(_moeo1,_moeo2);
+            return comp(_moeo2,_moeo1);
         }
     private:
         /** the comparator */
-- 
2.43.0


From 9a1f9b8a4710ba0a950c12eed9573debefdd0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:45 +0000
Subject: [PATCH 002/111] fix: let moeoManhattanDistance override the distance
 operator of its base class

---
 moeo/src/distance/moeoManhattanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoManhattanDistance.h b/moeo/src/distance/moeoManhattanDistance.h
index 37d70c8..ac818e6 100644
--- a/moeo/src/distance/moeoManhattanDistance.h
+++ b/moeo/src/distance/moeoManhattanDistance.h
@@ -74,7 +74,7 @@ class moeoManhattanDistance : public moeoObjSpaceDistance < MOEOT >
      * @param _obj1 the first objective vector
      * @param _obj2 the second objective vector
      */
-    double operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
+    const Fitness operator()(const ObjectiveVector & _obj1, const ObjectiveVector & _obj2)
     {
       double result = 0.0;
       double tmp1, tmp2;
-- 
2.43.0


From 2e614af38a815942cae46014bc0b10722061503c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:59 +0000
Subject: [PATCH 003/111] fix: keep a reference to the caller's normalizer in
 moeoEuclideanDistance, not to a dead copy

---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..6d14651 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> &_normalizer):normalizer(_normalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From c646d3cda2b638d4133b7ce71c627f69bfbbd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:24 +0000
Subject: [PATCH 004/111] fix: forget the copies found in the previous call
 when the dominance matrix is recomputed

---
 moeo/src/utils/moeoDominanceMatrix.h | 471 ++++++++++++++-------------
 1 file changed, 236 insertions(+), 235 deletions(-)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 474e492..990f2f8 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -1,235 +1,236 @@
-/*
-* <moeoDominanceMatrix.h>
-* Copyright (C) DOLPHIN Project-Team, INRIA Lille-Nord Europe, 2006-2008
-* (C) OPAC Team, LIFL, 2002-2008
-*
-* Arnaud Liefooghe
-* Jeremie Humeau
-*
-* This software is governed by the CeCILL license under French law and
-* abiding by the rules of distribution of free software.  You can  use,
-* modify and/ or redistribute the software under the terms of the CeCILL
-* license as circulated by CEA, CNRS and INRIA at the following URL
-* "http://www.cecill.info".
-*
-* As a counterpart to the access to the source code and  rights to copy,
-* modify and redistribute granted by the license, users are provided only
-* with a limited warranty  and the software's author,  the holder of the
-* economic rights,  and the successive licensors  have only  limited liability.
-*
-* In this respect, the user's attention is drawn to the risks associated
-* with loading,  using,  modifying and/or developing or reproducing the
-* software by the user in light of its specific status of free software,
-* that may mean  that it is complicated to manipulate,  and  that  also
-* therefore means  that it is reserved for developers  and  experienced
-* professionals having in-depth computer knowledge. Users are therefore
-* encouraged to load and test the software's suitability as regards their
-* requirements in conditions enabling the security of their systems and/or
-* data to be ensured and,  more generally, to use and operate it in the
-* same conditions as regards security.
-* The fact that you are presently reading this means that you have had
-* knowledge of the CeCILL license and that you accept its terms.
-*
-* ParadisEO WebSite : http://paradiseo.gforge.inria.fr
-* Contact: paradiseo-help@lists.gforge.inria.fr
-*
-*/
-//-----------------------------------------------------------------------------
-// moeoDominanceMatrix.h
-//-----------------------------------------------------------------------------
-#ifndef MOEODOMINANCEMATRIX_H_
-#define MOEODOMINANCEMATRIX_H_
-
-#include <set>
-
-/**
- * moeoDominanceMatrix allow to know if an MOEOT dominates another one or not. Can be apply on one or two eoPop.
- */
-template <class MOEOT>
-class moeoDominanceMatrix: public eoBF< eoPop< MOEOT >&, eoPop< MOEOT >& , void>,eoUF<eoPop <MOEOT>&,void>, std::vector < std::vector<bool> > {
-
-public:
-
-    using std::vector< std::vector<bool> >::size;
-    using std::vector< std::vector<bool> >::resize;
-    using std::vector< std::vector<bool> >::operator[];
-    using std::vector< std::vector<bool> >::begin;
-    using std::vector< std::vector<bool> >::end;
-
-    /** The type for objective vector */
-    typedef typename MOEOT::ObjectiveVector ObjectiveVector;
-
-    /**
-	 * Constructor which allow to choose the comparator
-	 * @param _nocopy boolean allow to consider copy and doublons as bad element whose were dominated by all other MOEOT
-	 * @param _comparator the comparator you want to use for the comparaison of two MOEOT
-	 */
-	moeoDominanceMatrix(moeoObjectiveVectorComparator < ObjectiveVector > & _comparator, bool _nocopy=true):std::vector < std::vector<bool> >(),comparator(_comparator), nocopy(_nocopy) {}
-
-    /**
-     * Default constructor with paretoComparator
-     * @param _nocopy boolean allow to consider copy and doublons as bad element whose were dominated by all other MOEOT
-     */
-    moeoDominanceMatrix(bool _nocopy=false):std::vector < std::vector<bool> >(),comparator(paretoComparator), nocopy(_nocopy) {}
-
-
-
-    /**
-     * Filling up the Dominance Matrix on one population
-     * @param _pop first population
-     */
-    void operator()(eoPop<MOEOT>& _pop) {
-        eoPop <MOEOT> dummyPop;
-        (*this).operator()(_pop, dummyPop);
-    }
-
-    /**
-     * Filling up the Dominance Matrix of first and second population (if you have only one population, the second must be empty)
-     * @param _pop1 first population
-     * @param _pop2 second population
-     */
-    void operator()(eoPop<MOEOT>& _pop1,eoPop<MOEOT>& _pop2) {
-
-        //Initialization
-        unsigned int i= _pop1.size();
-        unsigned int j= _pop2.size();
-        resize(i+j);
-        countVector.resize(i+j);
-        rankVector.resize(i+j);
-        for (unsigned int k=0; k < i+j; k++) {
-            (*this)[k].resize(i+j);
-            countVector[k]=0;
-            rankVector[k]=0;
-            for (unsigned l=0; l<i+j; l++)
-                (*this)[k][l]=false;
-        }
-        //filling up of matrix, count and rank vectors
-        for (unsigned int k=0; k<i+j-1; k++) {
-            for (unsigned int l=k+1; l<i+j; l++) {
-                if ( (k < i) && (l < i) ) {
-                    if ( comparator(_pop1[l].objectiveVector(), _pop1[k].objectiveVector())) {
-                        (*this)[k][l]=true;
-                        countVector[k]++;
-                        rankVector[l]++;
-                    }
-                    else if ( comparator(_pop1[k].objectiveVector(), _pop1[l].objectiveVector())) {
-                        (*this)[l][k]=true;
-                        countVector[l]++;
-                        rankVector[k]++;
-                    }
-                    else if (nocopy && (_pop1[k].objectiveVector() == _pop1[l].objectiveVector()))
-                        copySet.insert(l);
-                }
-                else if (( (k < i) && (l >= i) )) {
-                    if ( comparator(_pop2[l-i].objectiveVector(), _pop1[k].objectiveVector())) {
-                        (*this)[k][l]=true;
-                        countVector[k]++;
-                        rankVector[l]++;
-                    }
-                    else if ( comparator(_pop1[k].objectiveVector(), _pop2[l-i].objectiveVector())) {
-                        (*this)[l][k]=true;
-                        countVector[l]++;
-                        rankVector[k]++;
-                    }
-                    else if (nocopy && (_pop1[k].objectiveVector() == _pop2[l-i].objectiveVector()))
-                        copySet.insert(l);
-                }
-                else {
-                    if ( comparator(_pop2[l-i].objectiveVector(), _pop2[k-i].objectiveVector())) {
-                        (*this)[k][l]=true;
-                        countVector[k]++;
-                        rankVector[l]++;
-                    }
-                    else if ( comparator(_pop2[k-i].objectiveVector(), _pop2[l-i].objectiveVector())) {
-                        (*this)[l][k]=true;
-                        countVector[l]++;
-                        rankVector[k]++;
-                    }
-                    else if (nocopy && (_pop2[k-i].objectiveVector() == _pop2[l-i].objectiveVector()))
-                        copySet.insert(l);
-                }
-            }
-        }
-
-
-        //if we don't want copy, matrix, rankVector and countVector are updating
-        if (nocopy) {
-            std::set<unsigned int>::iterator it=copySet.begin();
-
-            while (it!=copySet.end()) {
-                for (unsigned int  l=0; l< (*this).size(); l++) {
-                    if (!(*this)[l][*it]) {
-                        (*this)[l][*it]=true;
-                        countVector[l]++;
-                    }
-                }
-                it++;
-            }
-            it=copySet.begin();
-            while (it!=copySet.end()) {
-                for (unsigned int  l=0; l< (*this).size(); l++) {
-                    if ((*this)[*it][l]) {
-                        (*this)[*it][l]=false;
-                        rankVector[l]--;
-                    }
-                }
-                it++;
-            }
-            it=copySet.begin();
-            while (it!=copySet.end()) {
-                countVector[*it]=0;
-                rankVector[*it]=(*this).size()-copySet.size();
-                it++;
-            }
-        }
-        /*
-        for(unsigned k=0; k<i+j; k++)
-        	for(unsigned l=0; l<i+j; l++){
-        		std::cout << (*this)[k][l];
-        		if(l==i+j-1)
-        			std::cout << "\n";
-        		else
-        			std::cout << "  ";
-        	}
-
-        for(unsigned k=0; k<i+j; k++){
-        	std::cout << "rank " << k << " : " << rankVector[k] << "\n";
-        	std::cout << "count " << k << " : " << countVector[k] << "\n";
-        }*/
-
-    }
-
-    /**
-     * @param _i the index of the element that we want RankDominanceFitness
-     * @return RankDominanceFitness of element of index _i
-     */
-    double rank(unsigned int _i) {
-        return rankVector[_i];
-    }
-
-    /**
-     * @param _i the index of the element that we want CountDominanceFitness
-     * @return CountDominanceFitness of element of index _i
-     */
-    double count(unsigned int _i) {
-        return countVector[_i];
-    }
-
-private:
-    /** Functor to compare two objective vectors */
-    moeoObjectiveVectorComparator < ObjectiveVector > & comparator;
-    /** Functor to compare two objective vectors according to Pareto dominance relation */
-    moeoParetoObjectiveVectorComparator < ObjectiveVector > paretoComparator;
-    /** boolean allow or not to pull away a copy*/
-    bool nocopy;
-    /** vector contains CountDominanceFitnessAssignment */
-    std::vector<double> countVector;
-    /** vector contains CountRankFitnessAssignment */
-    std::vector<double> rankVector;
-    /** vector contains index of copys */
-    std::set<unsigned int> copySet;
-
-
-};
-
-#endif /*MOEODOMINANCEMATRIX_H_*/
+/*
+* <moeoDominanceMatrix.h>
+* Copyright (C) DOLPHIN Project-Team, INRIA Lille-Nord Europe, 2006-2008
+* (C) OPAC Team, LIFL, 2002-2008
+*
+* Arnaud Liefooghe
+* Jeremie Humeau
+*
+* This software is governed by the CeCILL license under French law and
+* abiding by the rules of distribution of free software.  You can  use,
+* modify and/ or redistribute the software under the terms of the CeCILL
+* license as circulated by CEA, CNRS and INRIA at the following URL
+* "http://www.cecill.info".
+*
+* As a counterpart to the access to the source code and  rights to copy,
+* modify and redistribute granted by the license, users are provided only
+* with a limited warranty  and the software's author,  the holder of the
+* economic rights,  and the successive licensors  have only  limited liability.
+*
+* In this respect, the user's attention is drawn to the risks associated
+* with loading,  using,  modifying and/or developing or reproducing the
+* software by the user in light of its specific status of free software,
+* that may mean  that it is complicated to manipulate,  and  that  also
+* therefore means  that it is reserved for developers  and  experienced
+* professionals having in-depth computer knowledge. Users are therefore
+* encouraged to load and test the software's suitability as regards their
+* requirements in conditions enabling the security of their systems and/or
+* data to be ensured and,  more generally, to use and operate it in the
+* same conditions as regards security.
+* The fact that you are presently reading this means that you have had
+* knowledge of the CeCILL license and that you accept its terms.
+*
+* ParadisEO WebSite : http://paradiseo.gforge.inria.fr
+* Contact: paradiseo-help@lists.gforge.inria.fr
+*
+*/
+//-----------------------------------------------------------------------------
+// moeoDominanceMatrix.h
+//-----------------------------------------------------------------------------
+#ifndef MOEODOMINANCEMATRIX_H_
+#define MOEODOMINANCEMATRIX_H_
+
+#include <set>
+
+/**
+ * moeoDominanceMatrix allow to know if an MOEOT dominates another one or not. Can be apply on one or two eoPop.
+ */
+template <class MOEOT>
+class moeoDominanceMatrix: public eoBF< eoPop< MOEOT >&, eoPop< MOEOT >& , void>,eoUF<eoPop <MOEOT>&,void>, std::vector < std::vector<bool> > {
+
+public:
+
+    using std::vector< std::vector<bool> >::size;
+    using std::vector< std::vector<bool> >::resize;
+    using std::vector< std::vector<bool> >::operator[];
+    using std::vector< std::vector<bool> >::begin;
+    using std::vector< std::vector<bool> >::end;
+
+    /** The type for objective vector */
+    typedef typename MOEOT::ObjectiveVector ObjectiveVector;
+
+    /**
+	 * Constructor which allow to choose the comparator
+	 * @param _nocopy boolean allow to consider copy and doublons as bad element whose were dominated by all other MOEOT
+	 * @param _comparator the comparator you want to use for the comparaison of two MOEOT
+	 */
+	moeoDominanceMatrix(moeoObjectiveVectorComparator < ObjectiveVector > & _comparator, bool _nocopy=true):std::vector < std::vector<bool> >(),comparator(_comparator), nocopy(_nocopy) {}
+
+    /**
+     * Default constructor with paretoComparator
+     * @param _nocopy boolean allow to consider copy and doublons as bad element whose were dominated by all other MOEOT
+     */
+    moeoDominanceMatrix(bool _nocopy=false):std::vector < std::vector<bool> >(),comparator(paretoComparator), nocopy(_nocopy) {}
+
+
+
+    /**
+     * Filling up the Dominance Matrix on one population
+     * @param _pop first population
+     */
+    void operator()(eoPop<MOEOT>& _pop) {
+        eoPop <MOEOT> dummyPop;
+        (*this).operator()(_pop, dummyPop);
+    }
+
+    /**
+     * Filling up the Dominance Matrix of first and second population (if you have only one population, the second must be empty)
+     * @param _pop1 first population
+     * @param _pop2 second population
+     */
+    void operator()(eoPop<MOEOT>& _pop1,eoPop<MOEOT>& _pop2) {
+
+        //Initialization
+        unsigned int i= _pop1.size();
+        unsigned int j= _pop2.size();
+        copySet.clear();
+        resize(i+j);
+        countVector.resize(i+j);
+        rankVector.resize(i+j);
+        for (unsigned int k=0; k < i+j; k++) {
+            (*this)[k].resize(i+j);
+            countVector[k]=0;
+            rankVector[k]=0;
+            for (unsigned l=0; l<i+j; l++)
+                (*this)[k][l]=false;
+        }
+        //filling up of matrix, count and rank vectors
+        for (unsigned int k=0; k<i+j-1; k++) {
+            for (unsigned int l=k+1; l<i+j; l++) {
+                if ( (k < i) && (l < i) ) {
+                    if ( comparator(_pop1[l].objectiveVector(), _pop1[k].objectiveVector())) {
+                        (*this)[k][l]=true;
+                        countVector[k]++;
+                        rankVector[l]++;
+                    }
+                    else if ( comparator(_pop1[k].objectiveVector(), _pop1[l].objectiveVector())) {
+                        (*this)[l][k]=true;
+                        countVector[l]++;
+                        rankVector[k]++;
+                    }
+                    else if (nocopy && (_pop1[k].objectiveVector() == _pop1[l].objectiveVector()))
+                        copySet.insert(l);
+                }
+                else if (( (k < i) && (l >= i) )) {
+                    if ( comparator(_pop2[l-i].objectiveVector(), _pop1[k].objectiveVector())) {
+                        (*this)[k][l]=true;
+                        countVector[k]++;
+                        rankVector[l]++;
+                    }
+                    else if ( comparator(_pop1[k].objectiveVector(), _pop2[l-i].objectiveVector())) {
+                        (*this)[l][k]=true;
+                        countVector[l]++;
+                        rankVector[k]++;
+                    }
+                    else if (nocopy && (_pop1[k].objectiveVector() == _pop2[l-i].objectiveVector()))
+                        copySet.insert(l);
+                }
+                else {
+                    if ( comparator(_pop2[l-i].objectiveVector(), _pop2[k-i].objectiveVector())) {
+                        (*this)[k][l]=true;
+                        countVector[k]++;
+                        rankVector[l]++;
+                    }
+                    else if ( comparator(_pop2[k-i].objectiveVector(), _pop2[l-i].objectiveVector())) {
+                        (*this)[l][k]=true;
+                        countVector[l]++;
+                        rankVector[k]++;
+                    }
+                    else if (nocopy && (_pop2[k-i].objectiveVector() == _pop2[l-i].objectiveVector()))
+                        copySet.insert(l);
+                }
+            }
+        }
+
+
+        //if we don't want copy, matrix, rankVector and countVector are updating
+        if (nocopy) {
+            std::set<unsigned int>::iterator it=copySet.begin();
+
+            while (it!=copySet.end()) {
+                for (unsigned int  l=0; l< (*this).size(); l++) {
+                    if (!(*this)[l][*it]) {
+                        (*this)[l][*it]=true;
+                        countVector[l]++;
+                    }
+                }
+                it++;
+            }
+            it=copySet.begin();
+            while (it!=copySet.end()) {
+                for (unsigned int  l=0; l< (*this).size(); l++) {
+                    if ((*this)[*it][l]) {
+                        (*this)[*it][l]=false;
+                        rankVector[l]--;
+                    }
+                }
+                it++;
+            }
+            it=copySet.begin();
+            while (it!=copySet.end()) {
+                countVector[*it]=0;
+                rankVector[*it]=(*this).size()-copySet.size();
+                it++;
+            }
+        }
+        /*
+        for(unsigned k=0; k<i+j; k++)
+        	for(unsigned l=0; l<i+j; l++){
+        		std::cout << (*this)[k][l];
+        		if(l==i+j-1)
+        			std::cout << "\n";
+        		else
+        			std::cout << "  ";
+        	}
+
+        for(unsigned k=0; k<i+j; k++){
+        	std::cout << "rank " << k << " : " << rankVector[k] << "\n";
+        	std::cout << "count " << k << " : " << countVector[k] << "\n";
+        }*/
+
+    }
+
+    /**
+     * @param _i the index of the element that we want RankDominanceFitness
+     * @return RankDominanceFitness of element of index _i
+     */
+    double rank(unsigned int _i) {
+        return rankVector[_i];
+    }
+
+    /**
+     * @param _i the index of the element that we want CountDominanceFitness
+     * @return CountDominanceFitness of element of index _i
+     */
+    double count(unsigned int _i) {
+        return countVector[_i];
+    }
+
+private:
+    /** Functor to compare two objective vectors */
+    moeoObjectiveVectorComparator < ObjectiveVector > & comparator;
+    /** Functor to compare two objective vectors according to Pareto dominance relation */
+    moeoParetoObjectiveVectorComparator < ObjectiveVector > paretoComparator;
+    /** boolean allow or not to pull away a copy*/
+    bool nocopy;
+    /** vector contains CountDominanceFitnessAssignment */
+    std::vector<double> countVector;
+    /** vector contains CountRankFitnessAssignment */
+    std::vector<double> rankVector;
+    /** vector contains index of copys */
+    std::set<unsigned int> copySet;
+
+
+};
+
+#endif /*MOEODOMINANCEMATRIX_H_*/
-- 
2.43.0


From c4fca251cad78b263c8ab212f3c21c4769f86f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:24 +0000
Subject: [PATCH 005/111] fix: sort by the direction of each objective before
 ranking two-objective fronts

---
 .../moeoDominanceDepthFitnessAssignment.h       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 96f295b..f6da177 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -155,14 +155,17 @@ private:
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            if (MOEOT::ObjectiveVector::maximizing(0))
-                return cmp(_moeo2.objectiveVector(), _moeo1.objectiveVector());
-            else
-                return cmp(_moeo1.objectiveVector(), _moeo2.objectiveVector());
+            const ObjectiveVector & obj1 = _moeo1.objectiveVector();
+            const ObjectiveVector & obj2 = _moeo2.objectiveVector();
+            for (unsigned int i=0; i<ObjectiveVector::nObjectives(); i++)
+            {
+                if ( fabs(obj1[i] - obj2[i]) > ObjectiveVector::Traits::tolerance() )
+                {
+                    return MOEOT::ObjectiveVector::maximizing(i) ? (obj1[i] > obj2[i]) : (obj1[i] < obj2[i]);
+                }
+            }
+            return false;
         }
-    private:
-        /** the corresponding comparator for objective vectors */
-        moeoObjectiveObjectiveVectorComparator < ObjectiveVector > cmp;
     }
     objComparator;
     
-- 
2.43.0


From fa03efe6a281bed159725948c9770bdd68468282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:10 +0000
Subject: [PATCH 006/111] fix: rank equal objective vectors in the same front
 in the two-objective dominance depth

---
 moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index f6da177..b9d566f 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -199,7 +199,7 @@ private:
     void twoObjectives (eoPop < MOEOT > & _pop)
     {
         double value_obj1;
-        unsigned int front;
+        unsigned int front = 0;
         unsigned int last_front = 0;
         bool equiv_flag;
         
@@ -243,10 +243,13 @@ private:
             // check for equivalent solutions and assign them to the worst front
             if (i>0)
             {
-                if ( (rm_equiv_flag_in_2D) && (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector()) )
+                if (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector())
                 {
                     equiv_flag = true;
-                    fronts.back().push_back(i);
+                    if (rm_equiv_flag_in_2D)
+                        fronts.back().push_back(i);
+                    else // equivalent solutions do not dominate each other: same front
+                        fronts[front].push_back(i);
                 }
             }
             if (!equiv_flag)
-- 
2.43.0


From 3f617669fe9d9a5cb397f54a02711646734ff958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:16 +0000
Subject: [PATCH 007/111] fix: no undefined crowding distance when all
 solutions share an objective value

---
 moeo/src/diversity/moeoCrowdingDiversityAssignment.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
index 8f9b554..7156e6b 100644
--- a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
@@ -131,6 +131,12 @@ class moeoCrowdingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
           // min & max
           min = _pop[0].objectiveVector()[obj];
           max = _pop[_pop.size()-1].objectiveVector()[obj];
+          // avoid extreme case
+          if (min == max)
+            {
+              min -= tiny();
+              max += tiny();
+            }
           // set the diversity value to infiny for min and max
           _pop[0].diversity(inf());
           _pop[_pop.size()-1].diversity(inf());
-- 
2.43.0


From cf7c06fc43b6d653a4668800c7f5090ae357b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:09 +0000
Subject: [PATCH 008/111] fix: compute the normalized hypervolume when all
 points share an objective value

---
 moeo/src/metric/moeoHyperVolumeMetric.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index ce1ee0c..952a474 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -162,7 +162,11 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 	                min = std::min(min, _set[j][i]);
 	                max = std::max(max, _set[j][i]);
 	            }
-	            bounds[i] = eoRealInterval(min, max);
+	            // do not normalize by a null range when every point has the same value
+	            if (normalize && min == max)
+	                bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+	            else
+	                bounds[i] = eoRealInterval(min, max);
 	        }
     	}
     }
@@ -342,6 +346,15 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 
   private:
 
+    /**
+     * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+     */
+    static double tiny()
+    {
+      return 1e-6;
+    }
+
+
 	    /*boolean indicates if data must be normalized or not*/
 	    bool normalize;
 
-- 
2.43.0


From 00d2e1cb111b705bb517ad3139da44ba41d17e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:14 +0000
Subject: [PATCH 009/111] fix: compute the normalized epsilon indicator when
 all points share an objective value

---
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..e343fe6 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -123,13 +123,26 @@ public:
                 min = std::min(min, _set2[j][i]);
                 max = std::max(max, _set2[j][i]);
             }
-            bounds[i] = eoRealInterval(min, max);
+            // do not normalize by a null range when every point has the same value
+            if (min == max)
+                bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+            else
+                bounds[i] = eoRealInterval(min, max);
         }
     }
 
 
 protected:
 
+    /**
+     * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+     */
+    static double tiny()
+    {
+        return 1e-6;
+    }
+
+
     /*vectors contains bounds for normalization*/
     std::vector < eoRealInterval > bounds;
 
-- 
2.43.0


From ffa528e00afaa38f0f22cb744fc02898b19a8eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:48 +0000
Subject: [PATCH 010/111] fix: do not read past the end of the population in
 the SPEA2 archive update

---
 moeo/src/archive/moeoSPEA2Archive.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoSPEA2Archive.h b/moeo/src/archive/moeoSPEA2Archive.h
index d2c64b8..b43f6fc 100644
--- a/moeo/src/archive/moeoSPEA2Archive.h
+++ b/moeo/src/archive/moeoSPEA2Archive.h
@@ -178,7 +178,7 @@ public:
             i=0;
 
             //While we have a better element in pop than the worst <= -1 in the archive, replace the worst(of archive) by the best(of pop)
-            while ( (i<borne) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) && ( j < copy_pop.size() ) )
+            while ( (i<borne) && ( j < copy_pop.size() ) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) )
             {
                 operator[](i)= back();
                 pop_back();
@@ -188,7 +188,7 @@ public:
             }
 
             //If their are others goods elements in pop (fitness=0) , keep only archive's size elements between the archive's elements and the good element in the pop (k ieme smallest distance is used)
-            if (copy_pop[j].fitness > -1)
+            if ((j < copy_pop.size()) && (copy_pop[j].fitness > -1))
             {
                 unsigned int inf=j;
                 unsigned int p;
-- 
2.43.0


From 203d34db6c5185343703fdac2526e2ae67201c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:21 +0000
Subject: [PATCH 011/111] fix: moeoSEEA uses the transform operator it is built
 with

---
 moeo/src/algo/moeoSEEA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/algo/moeoSEEA.h b/moeo/src/algo/moeoSEEA.h
index 055fc80..c8da679 100644
--- a/moeo/src/algo/moeoSEEA.h
+++ b/moeo/src/algo/moeoSEEA.h
@@ -137,7 +137,7 @@ public:
         while (continuator (_pop))
         {
             // generate offspring, worths are recalculated if necessary
-            genBreed (_pop, offspring);
+            breed (_pop, offspring);
 
             popEval (_pop, offspring); // eval of offspring
             // after replace, the new pop is in _pop
-- 
2.43.0


From c09158912fbd1cb2451159d3fc876b9e0735d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:45 +0000
Subject: [PATCH 012/111] fix: no swap neighbour exists when a partition has no
 selected atom

---
 mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
index d51325b..bd57094 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighborhood.h
@@ -133,10 +133,10 @@ class moBinaryPartitionSwapNeighborhood : public moNeighborhood<moBinaryPartitio
 
     /** Returns true if there is actual neighbors in the neighborhood.
      *
-     * Essentially just tells if the rejected set is not empty.
+     * Essentially just tells if neither the rejected nor the selected set is empty.
      */
     virtual bool hasNeighbor(EOT& solution) override {
-        return solution.rejected.size() > 0;
+        return solution.rejected.size() > 0 and solution.selected.size() > 0;
     }
 
     //! Class name for state management.
-- 
2.43.0


From 3ea52425e71f40870c3682042e44c28943bee263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:45 +0000
Subject: [PATCH 013/111] fix: draw the number of flipped bits within bounds in
 moBitsWithReplNeighborhood

---
 mo/src/problems/bitString/moBitsWithReplNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
index 34d2a96..bb390ed 100644
--- a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
@@ -131,7 +131,7 @@ public:
       unsigned n = rng.random(neighborhoodSize);
 
       unsigned d = 1;
-      while (n < nSize[d - 1]) d++;
+      while (n >= nSize[d - 1]) d++;
 
       randomNeighbor(_solution, _neighbor, d);
     }
-- 
2.43.0


From 1328836c0f21e5fca2e31bc8b74dd031ba3569fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:15 +0000
Subject: [PATCH 014/111] fix: allow copying a partition swap neighbour that
 has not been evaluated

---
 mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
index 8f6bc60..320f8a1 100644
--- a/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
+++ b/mo/src/problems/partition/moBinaryPartitionSwapNeighbor.h
@@ -64,6 +64,7 @@ class moBinaryPartitionSwapNeighbor :
         /** Copy constructor.
          */
         moBinaryPartitionSwapNeighbor( const moBinaryPartitionSwapNeighbor<EOT>& other) :
+            moNeighbor<EOT,Fitness>(other),
             selected_nb(other.selected_nb),
             select(other.select),
             reject(other.reject)
@@ -71,7 +72,6 @@ class moBinaryPartitionSwapNeighbor :
                 , is_set(other.is_set)
             #endif
         {
-            this->fitness(other.fitness());
         }
 
         /** Default assignment operator.
@@ -79,13 +79,13 @@ class moBinaryPartitionSwapNeighbor :
         moBinaryPartitionSwapNeighbor<EOT>& operator=(
             const moBinaryPartitionSwapNeighbor<EOT>& other)
         {
+            moNeighbor<EOT,Fitness>::operator=(other);
             this->selected_nb = other.selected_nb;
             this->select = other.select;
             this->reject = other.reject;
             #ifndef NDEBUG
                 this->is_set = other.is_set;
             #endif
-            this->fitness(other.fitness());
             return *this;
         }
 
-- 
2.43.0


From 0a667a1056822acd85ac171773a36fe158721c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:03 +0000
Subject: [PATCH 015/111] fix: flipping several bits with moBitsNeighbor
 invalidates the solution's fitness

---
 mo/src/problems/bitString/moBitsNeighbor.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/problems/bitString/moBitsNeighbor.h b/mo/src/problems/bitString/moBitsNeighbor.h
index e0f1363..45dddbe 100644
--- a/mo/src/problems/bitString/moBitsNeighbor.h
+++ b/mo/src/problems/bitString/moBitsNeighbor.h
@@ -104,6 +104,7 @@ public:
   virtual void move(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
@@ -113,6 +114,7 @@ public:
   virtual void moveBack(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From df9102d8313159c624062faf654e4a043a805bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:31 +0000
Subject: [PATCH 016/111] fix: MaxSAT incremental evaluation with a negative
 literal in the first clause or an instance read from a file

---
 mo/src/problems/eval/moMaxSATincrEval.h | 40 ++++++++++---------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/mo/src/problems/eval/moMaxSATincrEval.h b/mo/src/problems/eval/moMaxSATincrEval.h
index 69dfbdb..8355983 100644
--- a/mo/src/problems/eval/moMaxSATincrEval.h
+++ b/mo/src/problems/eval/moMaxSATincrEval.h
@@ -66,34 +66,26 @@ public :
         unsigned int size = modifiedClauses.size();
 
         int nc;
-        bool litt;
+        bool before, after;
 
         for (unsigned int k = 0; k < size; k++) {
-            // number of the clause
+            // number of the clause (negative when not(variable) is in the clause,
+            // but the sign is lost for the clause number 0)
             nc = modifiedClauses[k];
-
-            // negative means that the not(variable) is in the clause
-            if (nc < 0) {
+            if (nc < 0)
                 nc = - nc;
-                litt = !_solution[bit];
-            } else
-                litt = _solution[bit];
-
-            if (litt) {
-                // the litteral was true and becomes false
-                _solution[bit] = !_solution[bit];
-
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was true and becomes false
-                    delta--;
-
-                _solution[bit] = !_solution[bit];
-            } else {
-                // the litteral was false and becomes true
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was false and becomes true
-                    delta++;
-            }
+
+            before = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+            after = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+
+            if (before && !after)
+                // the clause was true and becomes false
+                delta--;
+            else if (!before && after)
+                // the clause was false and becomes true
+                delta++;
         }
 
         _neighbor.fitness(_solution.fitness() + delta);
-- 
2.43.0


From 9bff812fe46005f4743913c8efe8c48295369f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:57 +0000
Subject: [PATCH 017/111] fix: copying a moIndexedSwapNeighbor keeps its
 fitness

---
 mo/src/problems/permutation/moIndexedSwapNeighbor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/permutation/moIndexedSwapNeighbor.h b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
index 4706305..d22da57 100644
--- a/mo/src/problems/permutation/moIndexedSwapNeighbor.h
+++ b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
@@ -55,7 +55,7 @@ public:
    * Copy Constructor
    * @param _n the neighbor to copy
    */
-  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moIndexNeighbor<EOT, Fitness>(_n)
+  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moNeighbor<EOT, Fitness>(_n), moIndexNeighbor<EOT, Fitness>(_n)
   {
     indices.first = _n.first();
     indices.second = _n.second();
-- 
2.43.0


From 3385e5d5f662739ab3e3ccf435dda9bbe81d630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:35 +0000
Subject: [PATCH 018/111] fix: undoing a shift move invalidates the solution's
 fitness

---
 mo/src/problems/permutation/moShiftNeighbor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/problems/permutation/moShiftNeighbor.h b/mo/src/problems/permutation/moShiftNeighbor.h
index 13eba18..8dfc8c5 100644
--- a/mo/src/problems/permutation/moShiftNeighbor.h
+++ b/mo/src/problems/permutation/moShiftNeighbor.h
@@ -65,6 +65,7 @@ public:
       insertion(_solution, indices.second - 1, indices.first);
     else
       insertion(_solution, indices.second, indices.first + 1);
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From 9b7e6e698d0e4dea6fa00ad6347336c292de4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:53 +0000
Subject: [PATCH 019/111] fix: Royal Road incremental evaluation of the bits
 after the last block

---
 mo/src/problems/eval/moRoyalRoadIncrEval.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mo/src/problems/eval/moRoyalRoadIncrEval.h b/mo/src/problems/eval/moRoyalRoadIncrEval.h
index 3296ab2..2bcd401 100644
--- a/mo/src/problems/eval/moRoyalRoadIncrEval.h
+++ b/mo/src/problems/eval/moRoyalRoadIncrEval.h
@@ -60,6 +60,11 @@ public:
         // complete block?
         unsigned int offset = n * k;
 
+        if (offset + k > _solution.size()) { // the last bits do not make a block
+            _neighbor.fitness(_solution.fitness());
+            return;
+        }
+
         unsigned int j = 0;
         while (j < k && _solution[offset + j]) j++;
 
-- 
2.43.0


From 06544f71a0fb6619b6e2e6585f0fdbf764b80e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:03 +0000
Subject: [PATCH 020/111] fix: OneMax incremental evaluation counts only the
 bits the neighbour flips

---
 mo/src/problems/eval/moOneMaxBitsIncrEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/eval/moOneMaxBitsIncrEval.h b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
index 5758d3c..f74509e 100644
--- a/mo/src/problems/eval/moOneMaxBitsIncrEval.h
+++ b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
@@ -50,7 +50,7 @@ public:
     virtual void operator()(EOT & _solution, Neighbor & _neighbor) {
       int delta = 0;
 
-      for(unsigned i = 0; i < _neighbor.bits.size(); i++) 	
+      for(unsigned i = 0; i < _neighbor.nBits; i++) 	
         if (_solution[_neighbor.bits[i]] == 0)
 	  delta++;
         else
-- 
2.43.0


From 06e8a2eb68827ed4fab82d482bd70dec4a50699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:30 +0000
Subject: [PATCH 021/111] fix: NK landscapes can be loaded from the files they
 are saved to

---
 problems/eval/nkLandscapesEval.h  | 2 ++
 problems/eval/nkpLandscapesEval.h | 4 +++-
 problems/eval/nkqLandscapesEval.h | 4 +++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/problems/eval/nkLandscapesEval.h b/problems/eval/nkLandscapesEval.h
index 73d4908..8ac8034 100644
--- a/problems/eval/nkLandscapesEval.h
+++ b/problems/eval/nkLandscapesEval.h
@@ -168,6 +168,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N and K." ;
 	throw eoException(str);
@@ -182,6 +183,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	std::string str = "nkLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkpLandscapesEval.h b/problems/eval/nkpLandscapesEval.h
index 343d25d..422be7f 100644
--- a/problems/eval/nkpLandscapesEval.h
+++ b/problems/eval/nkpLandscapesEval.h
@@ -89,7 +89,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkpLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
@@ -129,6 +129,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and p." ;
 	throw eoException(str);
@@ -143,6 +144,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkpLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
diff --git a/problems/eval/nkqLandscapesEval.h b/problems/eval/nkqLandscapesEval.h
index 368bae9..67b3433 100644
--- a/problems/eval/nkqLandscapesEval.h
+++ b/problems/eval/nkqLandscapesEval.h
@@ -88,7 +88,7 @@ public:
    *
    * @param _fileName the name of the file of the instance
    */
-  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>(_fileName) { }
+  nkqLandscapesEval(const char * _fileName) : nkLandscapesEval<EOT>() { load(_fileName); }
 
   /**
    * Load the instance from a file
@@ -128,6 +128,7 @@ public:
       buildTables();
 
       // read the links
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the parameters N, K, and q." ;
 	throw eoException(str);
@@ -142,6 +143,7 @@ public:
       }
 
       // lecture des tables
+      file >> s;
       if (s[0] != 'p') {
 	string str = "nkqLandscapesEval.load: -- p -- expected in [" + _fileName + "] after the links." ;
 	throw eoException(str);
-- 
2.43.0


From 7b3c2c2843fa5e4745e1e1b7857dfc77015b2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:48 +0000
Subject: [PATCH 022/111] fix: shuffles follow the library's random generator

The shuffles were seeded from std::random_device, so two runs with the same
seed gave different results. They now draw their seed from eo::rng.
---
 eo/src/eoInit.h                                | 3 +--
 eo/src/eoPop.h                                 | 6 ++----
 mo/src/neighborhood/moRndVectorVNSelection.h   | 3 +--
 moeo/src/selection/moeoDetArchiveSelect.h      | 3 +--
 moeo/src/selection/moeoNumberUnvisitedSelect.h | 3 +--
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/eo/src/eoInit.h b/eo/src/eoInit.h
index 5230b29..329b3b2 100644
--- a/eo/src/eoInit.h
+++ b/eo/src/eoInit.h
@@ -198,8 +198,7 @@ class eoInitPermutation: public eoInit<EOT> // FIXME inherit from eoInitWithDim
                 chrom[idx] = idx+startFrom;
             }
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(chrom.begin(), chrom.end(), gen);
             chrom.invalidate();
         }
diff --git a/eo/src/eoPop.h b/eo/src/eoPop.h
index fe91102..9546fc3 100644
--- a/eo/src/eoPop.h
+++ b/eo/src/eoPop.h
@@ -183,8 +183,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
         */
         void shuffle(void)
         {
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(begin(), end(), gen);
         }
@@ -197,8 +196,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
 
             std::transform(begin(), end(), result.begin(), Ref());
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(result.begin(), result.end(), gen);
         }
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..27780f2 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -87,8 +87,7 @@ public:
           order.push_back(i); }
 
 #if __cplusplus >= 201103L
-    std::random_device rd;
-    std::mt19937 gen(rd());
+    std::mt19937 gen(eo::rng.rand());
     std::shuffle(order.begin(), order.end(), gen);
 #else
     UF_random_generator<unsigned int> gen(order.size());
diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..ae8ad5c 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -76,8 +76,7 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 						permutation.push_back(i);
 					// UF_random_generator<unsigned int> rndGen(permutation.size());
 					// random_shuffle(permutation.begin(), permutation.end(), rndGen);
-					std::random_device rd;
-					std::mt19937 gen(rd());
+					std::mt19937 gen(eo::rng.rand());
 					std::shuffle(permutation.begin(), permutation.end(), gen);
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
diff --git a/moeo/src/selection/moeoNumberUnvisitedSelect.h b/moeo/src/selection/moeoNumberUnvisitedSelect.h
index 5a23843..ac40e08 100644
--- a/moeo/src/selection/moeoNumberUnvisitedSelect.h
+++ b/moeo/src/selection/moeoNumberUnvisitedSelect.h
@@ -74,8 +74,7 @@ public:
                 res.push_back(i);
         }
         if(number < res.size()){
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(res.begin(), res.end(), gen);
             res.resize(number);
         }
-- 
2.43.0


From 7ce08d6f543acafc2d1ae6f2ea2e12903f7faaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:48 +0000
Subject: [PATCH 023/111] fix: variable neighbourhood search restarts from the
 first neighbourhood after a move

The flag marking the first iteration was never cleared, so an accepted move
never reset the neighbourhood selection. The stop flag also survived into the
next run of the same search.
---
 mo/src/explorer/moVNSexplorer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..50d2356 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -78,6 +78,7 @@ public:
     selection.init(_solution);
     // for the first ls, the solution will be improved, so the next ls must be applied
     first = true;
+    stop = false;
   }
 
   /**
@@ -86,13 +87,14 @@ public:
    */
   virtual void updateParam(EOT & _solution) {
     if (!first && (*this).moveApplied()) {
-      first = false;
       selection.init(_solution);
-    } else 
+    } else {
+      first = false;
       if (selection.cont(currentSol)) {
 	selection.next(_solution);
       } else
 	stop = true;
+    }
   }
 
   /**
-- 
2.43.0


From 698ebb9a31d5721b7e83f53189a9336c3a88ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:48 +0000
Subject: [PATCH 024/111] fix: diversification re-evaluates the modified
 solution

The fitness was not invalidated before the evaluation, so an evaluator that
only evaluates invalid solutions left the old value.
---
 mo/src/memory/moMonOpDiversification.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..1c335f1 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,7 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From cf813e6f712f96ea696dab768f70ba3663cd2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:06 +0000
Subject: [PATCH 025/111] fix: non-cyclic selection of a single neighbourhood
 ends

size() - 2 wraps around with one registered neighbourhood, so the selection
never reported its end.
---
 mo/src/neighborhood/moForwardVectorVNSelection.h | 2 +-
 mo/src/neighborhood/moRndVectorVNSelection.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moForwardVectorVNSelection.h b/mo/src/neighborhood/moForwardVectorVNSelection.h
index d469cf6..879de80 100644
--- a/mo/src/neighborhood/moForwardVectorVNSelection.h
+++ b/mo/src/neighborhood/moForwardVectorVNSelection.h
@@ -70,7 +70,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return (cycle || (current <= (LSvector.size() - 2)));
+    return (cycle || (current + 1 < LSvector.size()));
   }
 
   /**
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 27780f2..ce9f228 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -73,7 +73,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return ( cycle || (currentOrder <= (order.size() - 2)) );
+    return ( cycle || (currentOrder + 1 < order.size()) );
   }
 
   /**
-- 
2.43.0


From 438c4207b9e9fef28e8e0af01dab3b3ee41bc1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:06 +0000
Subject: [PATCH 026/111] fix: indexed tabu list does not read past its end

Moves whose index is beyond the list are never recorded, but checking one
read out of bounds.
---
 mo/src/memory/moIndexedVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moIndexedVectorTabuList.h b/mo/src/memory/moIndexedVectorTabuList.h
index b567426..ad1e126 100644
--- a/mo/src/memory/moIndexedVectorTabuList.h
+++ b/mo/src/memory/moIndexedVectorTabuList.h
@@ -111,7 +111,7 @@ public:
      * @return true if tabuList contains _sol
      */
     virtual bool check(EOT & /*_sol*/, Neighbor & _neighbor) {
-      return (tabuList[_neighbor.index()] > 0);
+      return (_neighbor.index() < maxSize && tabuList[_neighbor.index()] > 0);
     }
 
     /**
-- 
2.43.0


From e61d1a08883f0c2dfaef35c8f4e4b3f252eac20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:07 +0000
Subject: [PATCH 027/111] fix: checkpoint interval counts steps, not statistics

The counter was incremented once per statistic, so with several statistics
some of them were never updated.
---
 mo/src/continuator/moCheckpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..b3631e6 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
-- 
2.43.0


From 551eb0e979f80001cf4ea7b2f4a4ce499ac3d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:07 +0000
Subject: [PATCH 028/111] fix: annealing without a cooling schedule runs until
 its continuator stops it

The placeholder schedule had its final temperature equal to its initial one,
so the search stopped after a single step whatever the continuator said.
---
 mo/src/algo/moSA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/algo/moSA.h b/mo/src/algo/moSA.h
index 5748f02..6c1fb0f 100644
--- a/mo/src/algo/moSA.h
+++ b/mo/src/algo/moSA.h
@@ -89,7 +89,7 @@ public:
      */
     moSA(Neighborhood& _neighborhood, eoEvalFunc<EOT>& _fullEval, moEval<Neighbor>& _eval, moContinuator<Neighbor>& _cont):
             moLocalSearch<Neighbor>(explorer, _cont, _fullEval),
-            defaultCool(0, 0, 0, 0),
+            defaultCool(0, 0, 0, -1),
             explorer(_neighborhood, _eval, defaultSolNeighborComp, defaultCool)
     {}
 
-- 
2.43.0


From 6c552de6ff4f6ebf3d533a75dabe92655a5254c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:04 +0000
Subject: [PATCH 029/111] fix: elitism merges only the elite, not the whole
 population

---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From c2371b3cb5b101fe8cb1eede9e87f1380f111cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:47 +0000
Subject: [PATCH 030/111] fix: weak elitism keeps the best of the elite parents

---
 eo/src/eoReduceMergeReduce.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoReduceMergeReduce.h b/eo/src/eoReduceMergeReduce.h
index d12a2b6..642789d 100644
--- a/eo/src/eoReduceMergeReduce.h
+++ b/eo/src/eoReduceMergeReduce.h
@@ -119,8 +119,9 @@ public:
               unsigned toSave = 0;
               _parents.sort();
               EOT & eoLimit = _parents[elite-1];
-              unsigned index=0;
-              while ( (temp[index++] > eoLimit) && (index < temp.size()) )
+              temp.sort();         // best of the elite first
+              while ( (toSave < temp.size()) && (temp[toSave] > eoLimit)
+                      && (temp[toSave] > _parents[finalPopSize-1-toSave]) )
                 toSave++;
               if (toSave)
                 for (unsigned i=0; i<toSave; i++)
-- 
2.43.0


From f2f1e0602d79b99e0e0dcff0babe27169e99ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:47 +0000
Subject: [PATCH 031/111] fix: inverse deterministic tournament ends on a
 single individual

---
 eo/src/utils/selectors.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index fda0633..b50e442 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -305,6 +305,10 @@ It inverse_deterministic_tournament(It _begin, It _end, unsigned _t_size, eoRng&
 {
     It worst = _begin + _gen.random(_end - _begin);
 
+    // a single individual has no competitor
+    if (_end - _begin == 1)
+        return worst;
+
     for (unsigned i = 1; i < _t_size; ++i)
     {
         It competitor = _begin + _gen.random(_end - _begin);
-- 
2.43.0


From 9441235b4d2a24fa89c6eb5e085d8aa0841065ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:15 +0000
Subject: [PATCH 032/111] fix: elite selection returns the best individual

---
 eo/src/eoSequentialSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSequentialSelect.h b/eo/src/eoSequentialSelect.h
index 002aca7..310382c 100644
--- a/eo/src/eoSequentialSelect.h
+++ b/eo/src/eoSequentialSelect.h
@@ -104,7 +104,7 @@ class eoEliteSelect: public eoSequentialSelect<EOT>
         virtual const EOT& operator()(const eoPop<EOT>& pop)
         {
             this->setup(pop);
-            return pop[0]; // the best one
+            return eoSequentialSelect<EOT>::operator()(pop); // the best one
         }
 };
 
-- 
2.43.0


From 30aee891baf0b51a520d6f5b3e8961f41c9bd006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:15 +0000
Subject: [PATCH 033/111] fix: roulette wheel on a population draws in double
 precision

---
 eo/src/utils/selectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index b50e442..b5b666a 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -255,7 +255,7 @@ const EOT& roulette_wheel(const eoPop<EOT>& _pop, double total, eoRng& _gen = rn
 template <class EOT>
 EOT& roulette_wheel(eoPop<EOT>& _pop, double total, eoRng& _gen = rng)
 {
-    float roulette = _gen.uniform(total);
+    double roulette = _gen.uniform(total);
 
     if (roulette == 0.0)           // covers the case where total==0.0
       return _pop[_gen.random(_pop.size())]; // uniform choice
-- 
2.43.0


From 4968a07d15061f1354c61af7bbb7bd116068cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:24 +0000
Subject: [PATCH 034/111] fix: n-th fitness statistic refuses an index equal to
 the population size

---
 eo/src/utils/eoStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 9803f66..54d9516 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -250,7 +250,7 @@ public :
 
     virtual void operator()(const std::vector<const EOT*>& _pop)
     {
-        if (whichElement > _pop.size())
+        if (whichElement >= _pop.size())
             throw eoException("fitness requested of element outside of pop");
 
         doit(_pop, Fitness());
-- 
2.43.0


From 4e9b0e0bea9474a6ef66b6fd5e181a8177f8938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:24 +0000
Subject: [PATCH 035/111] fix: linear fitness scaling of a population of equal
 fitness

---
 eo/src/eoLinearFitScaling.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/eoLinearFitScaling.h b/eo/src/eoLinearFitScaling.h
index 269518f..5ef378b 100644
--- a/eo/src/eoLinearFitScaling.h
+++ b/eo/src/eoLinearFitScaling.h
@@ -27,6 +27,7 @@
 #ifndef eoLinearFitScaling_h
 #define eoLinearFitScaling_h
 
+#include <algorithm>
 #include "eoSelectFromWorth.h"
 #include "eoPerf2Worth.h"
 
@@ -77,6 +78,10 @@ public:
 
         // the coefficients for linear scaling
         double denom = pSize*(bestFitness - averageFitness);
+        if (denom == 0) { // all fitnesses are equal: same worth for everyone
+            std::fill(value().begin(), value().end(), 1.0/pSize);
+            return;
+        }
         double alpha = (pressure-1)/denom;
         double beta = (bestFitness - pressure*averageFitness)/denom;
 
-- 
2.43.0


From 1857ca51949f9521775137d4ce5c5d036cc28b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:12 +0000
Subject: [PATCH 036/111] fix: a minimising fitness of any scalar type is
 recognised as minimising

---
 eo/src/utils/selectors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index b5b666a..f4ef9ea 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -116,7 +116,7 @@ bool minimizing_fitness_eo()
 {
     if constexpr (std::is_same<
                       typename EOT::Fitness,
-                      eoMinimizingFitness/*<typename EOT::Fitness::ScalarType>*/
+                      eoMinimizingFitnessT<typename EOT::Fitness::ScalarType>
                   >::value) {
         return true;
     } else {
-- 
2.43.0


From f2f3bd2f9d2c012b3061faf6fc448340a63208c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:39 +0000
Subject: [PATCH 037/111] fix: declare the wrapped criterion of the inverted
 continuator under the name it is used by

---
 eo/src/eoInvertedContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoInvertedContinue.h b/eo/src/eoInvertedContinue.h
index 9b723a5..9d1ff05 100644
--- a/eo/src/eoInvertedContinue.h
+++ b/eo/src/eoInvertedContinue.h
@@ -55,7 +55,7 @@ public:
   virtual std::string className(void) const { return "eoInvertedContinue"; }
   
 private:
-  eoContinue<EOT> &eval;
+  eoContinue<EOT> &cont;
 
 };
 
-- 
2.43.0


From 439e0b6e76288e0c49adb9aa20a3209e81b0b656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:39 +0000
Subject: [PATCH 038/111] fix: steady-state criterion resumed past the minimum
 starts from the current best

---
 eo/src/eoSteadyFitContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSteadyFitContinue.h b/eo/src/eoSteadyFitContinue.h
index 0b63c5e..d8fc820 100644
--- a/eo/src/eoSteadyFitContinue.h
+++ b/eo/src/eoSteadyFitContinue.h
@@ -53,7 +53,7 @@ public:
   eoSteadyFitContinue( unsigned long _minGens, unsigned long _steadyGen,
                  unsigned long& _currentGen)
     : eoCountContinue<EOT>( _currentGen ), repMinGenerations( _minGens ), repSteadyGenerations( _steadyGen),
-      steadyState(_currentGen>_minGens)
+      steadyState(false)
     {};
 
   /** Returns false when a certain number of generations is
-- 
2.43.0


From 86188a5125cac54768fcb8ab37c806cf76c327a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:39 +0000
Subject: [PATCH 039/111] fix: wall-clock limited evaluation compiles and
 counts its calls

---
 eo/src/eoEvalTimeThrowException.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..f2c6589 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From da00ff00fffc7cc9e4d102bbf223291b80823dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:39 +0000
Subject: [PATCH 040/111] fix: CPU-time limited evaluation counts its calls

---
 eo/src/eoEvalUserTimeThrowException.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..609a15e 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 3effc80a88495d289816e1fe367b9a20b65b9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:39 +0000
Subject: [PATCH 041/111] fix: file snapshot writes every monitored vector

---
 eo/src/utils/eoFileSnapshot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoFileSnapshot.h b/eo/src/utils/eoFileSnapshot.h
index 3c70958..1c4b1e5 100644
--- a/eo/src/utils/eoFileSnapshot.h
+++ b/eo/src/utils/eoFileSnapshot.h
@@ -148,7 +148,7 @@ public :
         vv[0]=v;
         for (unsigned i=1; i<vec.size(); i++)
           {
-            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[1]);
+            ptParam = static_cast<const eoValueParam<std::vector<double> >* >(vec[i]);
             vv[i] = ptParam->value();
             if (vv[i].size() != v.size())
               throw eoException("Dimension error in eoSnapshotMonitor");
-- 
2.43.0


From 3a530b4c5f2d661d44368ee4a8fbf9658cd425fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:46 +0000
Subject: [PATCH 042/111] fix: permutation mutations return at once on fewer
 than two elements

Swap, shift and 2-opt mutation look for a second position different from
the first one. With a single element there is none, and they never returned.
---
 eo/src/eoShiftMutation.h  | 5 +++++
 eo/src/eoSwapMutation.h   | 4 ++++
 eo/src/eoTwoOptMutation.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/eo/src/eoShiftMutation.h b/eo/src/eoShiftMutation.h
index a9b71d6..fdd7c9e 100644
--- a/eo/src/eoShiftMutation.h
+++ b/eo/src/eoShiftMutation.h
@@ -61,6 +61,11 @@ template<class EOT> class eoShiftMutation: public eoMonOp<EOT>
       unsigned i, j, from, to;
       GeneType tmp;
 
+      // nothing to shift: looking for a second position would never end
+      if (_eo.size() < 2)
+        return false;
+
+
       // generate two different indices
       i=eo::rng.random(_eo.size());
       do j = eo::rng.random(_eo.size()); while (i == j);
diff --git a/eo/src/eoSwapMutation.h b/eo/src/eoSwapMutation.h
index 33d04ac..c370138 100644
--- a/eo/src/eoSwapMutation.h
+++ b/eo/src/eoSwapMutation.h
@@ -60,6 +60,10 @@ template<class Chrom> class eoSwapMutation: public eoMonOp<Chrom>
     {
       unsigned i, j;
 
+      // nothing to swap: looking for a second position would never end
+      if (chrom.size() < 2)
+        return false;
+
       for(unsigned int swap = 0; swap < howManySwaps; swap++)
       {
             // generate two different indices
diff --git a/eo/src/eoTwoOptMutation.h b/eo/src/eoTwoOptMutation.h
index 054f223..f6a7da3 100644
--- a/eo/src/eoTwoOptMutation.h
+++ b/eo/src/eoTwoOptMutation.h
@@ -52,6 +52,10 @@ public:
     * @param _eo The cromosome which is going to be changed.
     */
     bool operator()(EOT& _eo) {
+        // nothing to reverse: looking for a second position would never end
+        if (_eo.size() < 2)
+            return false;
+
         // generate two different indices
         unsigned i(eo::rng.random(_eo.size()));
         unsigned j;
-- 
2.43.0


From 531c7aa21025c773ddc97ba04209d6866d9b149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:29 +0000
Subject: [PATCH 043/111] fix: bit crossovers accept strings with no room for a
 crossing point

With chromosomes of one bit the n-point crossover never returned, and with
chromosomes shorter than a gene the gene crossover wrote out of range: both
drew a first point before checking that one was wanted.
---
 eo/src/ga/eoBitOp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/ga/eoBitOp.h b/eo/src/ga/eoBitOp.h
index 50e2320..1da5f8e 100644
--- a/eo/src/ga/eoBitOp.h
+++ b/eo/src/ga/eoBitOp.h
@@ -404,7 +404,7 @@ public:
         std::vector<bool> points(max_size, false);
 
         // select ranges of bits to swap
-        do {
+        while(max_points) {
             unsigned bit(eo::rng.random(max_size));
             if(points[bit])
                 continue;
@@ -412,7 +412,7 @@ public:
                 points[bit] = true;
                 --max_points;
             }
-        } while(max_points);
+        }
 
         // swap bits between chromosomes
         bool change(false);
@@ -472,7 +472,7 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
       std::vector<bool> points(max_genes, false);
 
       // selects genes to swap
-      do {
+      while (cut_genes) {
         unsigned bit = eo::rng.random(max_genes);
         if (points[bit])
           continue;
@@ -481,7 +481,7 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
             points[bit] = true;
             cut_genes--;
           }
-      } while (cut_genes);
+      }
 
       // swaps genes
       for (unsigned i = 0; i < points.size(); i++)
-- 
2.43.0


From 68edbb605cad2166521502a21eb75c4295397fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:22 +0000
Subject: [PATCH 044/111] fix: bucket bit mutation draws from the library's
 generator

The number of bits was drawn with the C library's rand(), so runs with the
same seed gave different results.
---
 eo/src/ga/eoStandardBitMutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 32ece13..77d31ce 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -301,7 +301,7 @@ class eoBucketBitMutation : public eoMonOp<EOT>
 
             int nbBits;
             if (gapBit > 0) {
-                nbBits = rand() % gapBit + startBit;
+                nbBits = eo::rng.random(gapBit) + startBit;
             } else {
                 nbBits = endBit;
             }
-- 
2.43.0


From 4622c5788acb3cd736bb500f9cdd88d7089859fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:07 +0000
Subject: [PATCH 045/111] fix: folding into an interval leaves values inside it
 alone

A value inside the bounds was replaced by a random one when larger than 1e9,
and an interval of a single value divided by zero.
---
 eo/src/utils/eoIntBounds.h  | 3 +++
 eo/src/utils/eoRealBounds.h | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 73b1854..cbbd1a0 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -282,6 +282,9 @@ public :
   // folds a value into bounds
   virtual void foldsInBounds(double &  _r) const
   {
+    if (isInBounds(_r))			// nothing to do
+      return;
+
     long iloc;
     double dlargloc = 2 * range() ;
 
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c760318..4aed848 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -268,9 +268,18 @@ public :
   // folds a value into bounds
   virtual void foldsInBounds(double &  _r) const
   {
+    if (isInBounds(_r))			// nothing to do
+      return;
+
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (dlargloc <= 0)			// only one value allowed
+      {
+        _r = minimum();
+        return;
+      }
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
-- 
2.43.0


From 2ede321a12e4eac0ae4dfd2011997ffea638cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:22 +0000
Subject: [PATCH 046/111] fix: a copy of vector bounds uses its own bounds

The copy duplicated the owned bounds but kept pointing at the originals,
which are freed when the original is read again.
---
 eo/src/utils/eoRealBounds.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRealBounds.cpp b/eo/src/utils/eoRealBounds.cpp
index c80c655..77759b2 100644
--- a/eo/src/utils/eoRealBounds.cpp
+++ b/eo/src/utils/eoRealBounds.cpp
@@ -7,6 +7,7 @@
 #include <config.h>
 #endif
 
+#include <algorithm>
 #include <ctime>
 #include <sstream>
 
@@ -56,7 +57,11 @@ eoRealVectorBounds::eoRealVectorBounds(const eoRealVectorBounds & _b):
   // duplicate all pointers!
   if (ownedBounds.size()>0)
     for (unsigned i=0; i<ownedBounds.size(); i++)
-      ownedBounds[i] = ownedBounds[i]->dup();
+      {
+        ownedBounds[i] = ownedBounds[i]->dup();
+        // and use the duplicate wherever the original was used
+        std::replace(begin(), end(), _b.ownedBounds[i], ownedBounds[i]);
+      }
 }
 
 
-- 
2.43.0


From f15257139d4699bdb63cc9f1cc6d1cb99a62d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:22 +0000
Subject: [PATCH 047/111] fix: unbounded deterministic uniform mutation moves
 around the current value

---
 eo/src/es/eoRealOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..debc424 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -207,7 +207,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
           {
             unsigned lieu = rng.random(_eo.size());
             // actually, we should test that we don't re-modify same variable!
-            _eo[lieu] = 2*epsilon[0]*rng.uniform()-epsilon[0];
+            _eo[lieu] += 2*epsilon[0]*rng.uniform()-epsilon[0];
           }
       else
         {
-- 
2.43.0


From a01d6e11c3aa3e10f72d7d5da92191848b0c13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:22 +0000
Subject: [PATCH 048/111] fix: unbounded normal vector mutation uses the given
 standard deviation

The value was taken as the size of the vector of deviations.
---
 eo/src/es/eoNormalMutation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 266b101..ffb617b 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -58,7 +58,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    * @param _p_change the probability to change a given coordinate
    */
   eoNormalVecMutation(double _sigma, const double& _p_change = 1.0):
-    sigma(_sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
+    sigma(1, _sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
 
   /**
    * Constructor with bounds
@@ -92,7 +92,8 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
         {
           if (rng.flip(p_change))
             {
-              _eo[lieu] += sigma[lieu]*rng.normal();
+              // a single sigma is shared by all components
+              _eo[lieu] += (sigma.size() == 1 ? sigma[0] : sigma[lieu])*rng.normal();
               bounds.foldsInBounds(lieu, _eo[lieu]);
               hasChanged = true;
             }
-- 
2.43.0


From 07028faeec57387a7bcfa40827bcc5bf36031aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:30 +0000
Subject: [PATCH 049/111] fix: proportional combination of binary operators
 compiles and reports its modification

---
 eo/src/eoProportionalCombinedOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoProportionalCombinedOp.h b/eo/src/eoProportionalCombinedOp.h
index 0dce5b0..b1d00cc 100644
--- a/eo/src/eoProportionalCombinedOp.h
+++ b/eo/src/eoProportionalCombinedOp.h
@@ -149,7 +149,7 @@ virtual void add(eoBinOp<EOT> & _op, const double _rate, bool _verbose=false)
       }
   }
 
-  virtual void operator()(EOT & _indi1, const EOT & _indi2)
+  virtual bool operator()(EOT & _indi1, const EOT & _indi2)
   {
     unsigned what = rng.roulette_wheel(rates); // choose one op index
     return (*ops[what])(_indi1, _indi2);                   // apply it
-- 
2.43.0


From dd4f98c58780a7a75b4808302e05b21f38e28601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:56 +0000
Subject: [PATCH 050/111] fix: a sequential populator that runs out of
 individuals raises the populator's exception

It raised a private type of the same name, which nobody could catch.
---
 eo/src/eoPopulator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/eoPopulator.h b/eo/src/eoPopulator.h
index 9c8d28a..51f1708 100644
--- a/eo/src/eoPopulator.h
+++ b/eo/src/eoPopulator.h
@@ -167,7 +167,7 @@ public:
     /** the select method simply returns next individual in the src pop */
     const EOT& select(void) {
         if(current >= eoPopulator< EOT >::src.size()) {
-            throw OutOfIndividuals();
+            throw typename eoPopulator<EOT>::OutOfIndividuals();
         }
 
         const EOT& res = src[current++];
@@ -177,8 +177,6 @@ public:
 
 private:
 
-    struct OutOfIndividuals {};
-
     unsigned current;
 };
 
-- 
2.43.0


From 52b1d51b1b3152ec7b2d8c72728d939139861e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:07 +0000
Subject: [PATCH 051/111] fix: a sequence of operators makes room before each
 application

A pair operator applied to the last of three new individuals could
reallocate the offspring while holding a reference into it.
---
 eo/src/eoOpContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoOpContainer.h b/eo/src/eoOpContainer.h
index 0636bd0..bff6cb5 100644
--- a/eo/src/eoOpContainer.h
+++ b/eo/src/eoOpContainer.h
@@ -114,7 +114,8 @@ public:
 
                     //(*ops[i])(_pop);
 
-                    ops[i]->apply(_pop);
+                    // makes room for what this operator may produce, then applies it
+                    (*ops[i])(_pop);
 
                     //            }
                     // check for out of individuals and do nothing with that...
-- 
2.43.0


From 2c716c8cea1c30482eecc2c7fe72823d2fa3c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:34 +0000
Subject: [PATCH 052/111] fix: the opposite of a number of individuals leaves
 the number itself unchanged

---
 eo/src/utils/eoHowMany.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index 7804398..a24eeec 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -171,13 +171,14 @@ public:
   }
 
   /** The unary - operator: reverses the computation */
-  eoHowMany operator-()
+  eoHowMany operator-() const
   {
+    eoHowMany opposite(*this);
     if (!count)                   // only rate is used
-      rate = 1.0-rate;
+      opposite.rate = 1.0-rate;
     else
-      count = -count;
-    return (*this);
+      opposite.count = -count;
+    return opposite;
   }
 
   void value(double _rate, bool _interpret_as_rate)
-- 
2.43.0


From 0dd76ec9dba48cbf12c67c51f574c2b7763d279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:49 +0000
Subject: [PATCH 053/111] fix: a proportional choice in a sequence no longer
 skips every second individual

The choice moved on to the next individual, and so did the sequence.
---
 eo/src/eoOpContainer.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/eo/src/eoOpContainer.h b/eo/src/eoOpContainer.h
index bff6cb5..23dfdb8 100644
--- a/eo/src/eoOpContainer.h
+++ b/eo/src/eoOpContainer.h
@@ -164,7 +164,6 @@ public:
       {
           // std::clog << "\t" << ops[i]->className() << std::endl;
         (*ops[i])(_pop);
-        ++_pop;
       }
       catch( typename eoPopulator<EOT>::OutOfIndividuals&)
       {}
-- 
2.43.0


From 78482171efb74d6fc8ee98725f90123792851c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:49 +0000
Subject: [PATCH 054/111] fix: uniform variable-length crossovers start each
 trial from empty offspring

---
 eo/src/eoVariableLengthCrossover.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..bb1307a 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -236,6 +236,8 @@ public :
     EOT tmp1, tmp2;
     unsigned index=0;
     do {
+      tmp1.resize(0);
+      tmp2.resize(0);
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
@@ -299,6 +301,8 @@ public :
     bool tmpIsOne=true, tmpIsTwo=true;
     unsigned index=0;
     do {
+      tmp1.resize(0);
+      tmpIsOne = tmpIsTwo = true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-- 
2.43.0


From f3d9924542d6a097c9d90b5994a1a9a7e66e7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:49 +0000
Subject: [PATCH 055/111] fix: eoVlUniformBinOp reports a change when the
 offspring is the other parent

---
 eo/src/eoVariableLengthCrossover.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index bb1307a..4618127 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -298,18 +298,15 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne=true;
     unsigned index=0;
     do {
       tmp1.resize(0);
-      tmpIsOne = tmpIsTwo = true;
+      tmpIsOne = true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-            {
-              tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
-            }
+            tmp1.push_back(_eo1[i]);
           else
             tmpIsOne=false;
         // we should look for _eo1[i] inside _eo2 and erase it there if found!
@@ -321,8 +318,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -335,11 +330,6 @@ public :
       }
 
     _eo1.swap(tmp1);
-    if (tmpIsTwo)
-      {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
     if (tmpIsOne)                  // already has the right fitness
       {                            // WRONG: NO FITNESS EXISTS HERE!
         return false;
-- 
2.43.0


From e156604957c1d44df6b88572f20830e6b0202e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:15 +0000
Subject: [PATCH 056/111] fix: eoRng writes its cached normal deviate exactly

Printing kept only the stream's digits (6 by default), so a generator read
back from text did not continue the saved sequence. The value is also given a
defined initial content, since it is printed even when unused.
---
 eo/src/utils/eoRNG.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..a246f63 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -125,7 +125,7 @@ public :
     @see reseed for details on usage of the seeding value.
     */
     eoRng(uint32_t s)
-        : state(0), next(0), left(-1), cached(false)
+        : state(0), next(0), left(-1), cached(false), cacheValue(0)
         {
             state = new uint32_t[N+1];
             initialize(2*s);
@@ -362,7 +362,10 @@ public :
                 _os << state[i] << ' ';
             }
             _os << int(next - state) << ' ';
+            // enough digits to read the very same cached value back
+            const std::streamsize precision = _os.precision(17);
             _os << left << ' ' << cached << ' ' << cacheValue;
+            _os.precision(precision);
         }
 
     /** @brief Read RNG
-- 
2.43.0


From 3700b170c0b516ba124afe81e2de2cb054a63cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:15 +0000
Subject: [PATCH 057/111] fix: power law deviates are drawn between their
 bounds

The inverse transform needs a deviate in [0,1).
---
 eo/src/utils/eoRNG.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index a246f63..1d364fb 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -234,7 +234,7 @@ public :
      */
     double powerlaw(double min, double max, double gamma)
        {
-            double x = uniform(min,max);
+            double x = uniform();
             return std::pow(
                      x * (std::pow(max,-gamma+1) - std::pow(min,-gamma+1))
                        + std::pow(min,-gamma+1.0),
-- 
2.43.0


From 65d5c6fa9851f6d380cfaa110071e94e448a99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:15 +0000
Subject: [PATCH 058/111] fix: general bounds draw from the generator they are
 given

---
 eo/src/utils/eoIntBounds.h  | 4 ++--
 eo/src/utils/eoRealBounds.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index cbbd1a0..f09a854 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -691,12 +691,12 @@ public:
   /** random generator of uniform doubles in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** random generator of uniform ints in bounds
    * std::exception if unbounded
    */
-  virtual long int random(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->random();}
+  virtual long int random(eoRng & _rng = eo::rng)  const {return repBound->random(_rng);}
 
   /** for memory managements - ugly */
   virtual eoIntBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index 4aed848..8447586 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -666,7 +666,7 @@ public:
   /** random generator of uniform numbers in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** for memory managements - ugly */
   virtual eoRealBounds * dup() const  {return repBound->dup();}
-- 
2.43.0


From e9b7f0bbe2a65d4a749ec6c75618d3f06987ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:29 +0000
Subject: [PATCH 059/111] fix: vector bounds draw from the generator they are
 given

---
 eo/src/utils/eoRealVectorBounds.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/utils/eoRealVectorBounds.h b/eo/src/utils/eoRealVectorBounds.h
index d877853..e7e14b5 100644
--- a/eo/src/utils/eoRealVectorBounds.h
+++ b/eo/src/utils/eoRealVectorBounds.h
@@ -187,9 +187,7 @@ public:
    */
   virtual double uniform(unsigned _i, eoRng & _rng = eo::rng)
   {
-    (void)_rng;
-
-    double r= (*this)[_i]->uniform();
+    double r= (*this)[_i]->uniform(_rng);
     return r;
   }
 
-- 
2.43.0


From 81d6ddc99602de7b56bd43b551b1c9ad55482717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:18 +0000
Subject: [PATCH 060/111] fix: EO reads back a fitness written as several words

Only the first word was given to the fitness, so individuals with a dual or an
assembled fitness could not be read from what they print: the remaining words
were taken for the genotype.
---
 eo/src/EO.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eo/src/EO.h b/eo/src/EO.h
index 09bb2d2..a64752c 100644
--- a/eo/src/EO.h
+++ b/eo/src/EO.h
@@ -129,6 +129,16 @@ public:
    */
   virtual void readFrom(std::istream& _is)
   {
+        _is >> std::ws;
+
+        // a fitness may be written as several words, so let it read itself
+        if (_is.peek() != invalidTag[0])
+        {
+                invalidFitness = false;
+                _is >> repFitness;
+                return;
+        }
+
         std::string fitness_str;
         _is >> fitness_str;
 
-- 
2.43.0


From 8f2989635ad9f3ff9e4539b3926f3faed9107193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:42 +0000
Subject: [PATCH 061/111] fix: reading an empty bit string does not swallow
 what follows it

---
 eo/src/ga/eoBit.h             | 5 +++++
 moeo/src/core/moeoBitVector.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/eo/src/ga/eoBit.h b/eo/src/ga/eoBit.h
index 320a5b7..237f7fa 100644
--- a/eo/src/ga/eoBit.h
+++ b/eo/src/ga/eoBit.h
@@ -108,6 +108,11 @@ public:
       EO<FitT>::readFrom(is);
       unsigned s;
       is >> s;
+      if (s == 0)
+        { // no word follows for an empty bitstring
+          resize(0);
+          return;
+        }
       std::string bits;
       is >> bits;
       if (is)
diff --git a/moeo/src/core/moeoBitVector.h b/moeo/src/core/moeoBitVector.h
index ff41832..f842515 100644
--- a/moeo/src/core/moeoBitVector.h
+++ b/moeo/src/core/moeoBitVector.h
@@ -94,6 +94,11 @@ class moeoBitVector : public moeoVector < MOEOObjectiveVector, bool, MOEOFitness
       MOEO < MOEOObjectiveVector, MOEOFitness, MOEODiversity >::readFrom(_is);
       unsigned int s;
       _is >> s;
+      if (s == 0)
+        { // no word follows for an empty bitstring
+          resize(0);
+          return;
+        }
       std::string bits;
       _is >> bits;
       if (_is)
-- 
2.43.0


From ad8b3a4d7e660bffbea1667bc7067b2b1f12ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 062/111] fix: eoString reads its content back

It printed its length and characters but inherited a reader which stops after
the fitness.
---
 eo/src/other/eoString.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/eo/src/other/eoString.h b/eo/src/other/eoString.h
index 2fff076..4666f5f 100644
--- a/eo/src/other/eoString.h
+++ b/eo/src/other/eoString.h
@@ -64,7 +64,20 @@ public:
     os << ' ';
 
     os << size() << ' ' << substr() << std::endl;
+  }
 
+  /** Read object, as written by printOn.
+      @param is A std::istream.
+  */
+  virtual void readFrom(std::istream& is)
+  {
+    EO<fitnessT>::readFrom(is);
+    size_t length = 0;
+    is >> length;
+    is.get(); // the space before the content, which may itself have spaces
+    std::string content(length, ' ');
+    is.read(&content[0], length);
+    assign(content);
   }
 
   /** @name Methods from eoObject
-- 
2.43.0


From 3333e84bf3384bf1ad6ce0e77270ad1cab3c2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 063/111] fix: eoState::load recognises the sections that save
 writes

The closing tag was searched with its end of line in a line which has none, so
no section was ever found and nothing was loaded.
---
 eo/src/utils/eoState.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 6a46dc6..354b232 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -36,7 +36,10 @@ bool eoState::is_section(const std::string& str, std::string& name)
         return false;
     //else
 
-    std::string::size_type end = str.find(_tag_section_sc);
+    // str is a line, without the end of line that the closing tag ends with
+    std::string closing = _tag_section_sc.substr(0, _tag_section_sc.find('\n'));
+    std::string::size_type start = pos + _tag_section_so.size();
+    std::string::size_type end = str.find(closing, start);
 
     if (end == std::string::npos)
         return false;
@@ -44,7 +47,7 @@ bool eoState::is_section(const std::string& str, std::string& name)
 
     // affect name, passed by reference
     // Note: substr( start, count )
-    name = str.substr( pos + _tag_section_so.size(), end - _tag_section_so.size() );
+    name = str.substr( start, end - start );
 
     return true;
 }
-- 
2.43.0


From 1f35d76d16021638b13a6a2beb2722942e675987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 064/111] fix: eoState::save keeps all the digits of the
 numbers it saves

With the default six digits, a restored population differed from the saved one.
---
 eo/src/utils/eoState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 354b232..5bdbeca 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -188,6 +188,9 @@ void eoState::saveSection( std::ostream& os, std::vector<ObjectMap::iterator>::c
 
 void eoState::save(std::ostream& os) const
 {
+    // enough digits to load the very same numbers
+    const std::streamsize precision = os.precision(17);
+
     os << _tag_state_so << _tag_state_name << _tag_state_sc;
    
     // save the first section
@@ -204,6 +207,8 @@ void eoState::save(std::ostream& os) const
         it++;
     }
     os << _tag_state_e;
+
+    os.precision(precision);
 }
 
 
-- 
2.43.0


From 83f1a50609e69860047c329f679a4916e670c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 065/111] fix: vector parameters read their numbers from the
 first character

The loop skipping delimiters also dropped the first character of each number.
---
 eo/src/utils/eoParam.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 969ea00..c865d20 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -353,6 +353,7 @@ inline void eoValueParam<std::vector<double> >::setValue(const std::string& _val
         do {
             is >> c;
         } while((std::string::npos != delimiter.find(c)) && (! is.eof()));
+        is.putback(c); // the first character of the number
         is >> repValue[i];
     }
 }
-- 
2.43.0


From e3f4a66bd7d5ad814c914c53e8d800a87ee52910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 066/111] fix: eoValueParam::value(v) sets the very value it is
 given

It went through a text of six digits, of which a string kept the first word.
---
 eo/src/utils/eoParam.h | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index c865d20..da13c0d 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -191,13 +191,7 @@ public :
      */
     void value( ValueType val )
     {
-        // convert to string
-        std::ostringstream os;
-        os << val;
-
-        // convert to ValueType
-        std::istringstream is( os.str() );
-        is >> repValue;
+        repValue = val;
     }
 
 
-- 
2.43.0


From fe4cefec1b80090f2d157171aafdaf97393ab4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 067/111] fix: string parameters are set to the whole text

An empty text was ignored and anything after a space was dropped, so a string
parameter was not read back from its own text.
---
 eo/src/utils/eoParam.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index da13c0d..6c40e48 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -252,6 +252,13 @@ inline std::string eoValueParam<std::string>::getValue() const
 }
 
 
+template <>
+inline void eoValueParam<std::string>::setValue(const std::string& _value)
+{
+    repValue = _value;
+}
+
+
 template <>
 inline void eoValueParam<bool>::setValue(const std::string& _value)
 {
-- 
2.43.0


From da4c8dfe9f2cf802b4276185a62981b16c08b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:52 +0000
Subject: [PATCH 068/111] fix: arguments of a parameter with arguments end at
 their delimiter

The end position was used as a length, and an unclosed list looped forever.
---
 eo/src/utils/eoParam.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 6c40e48..efd94ce 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -488,9 +488,10 @@ public:
             while ( (pos=t.find_first_not_of(delim)) < t.size())
             {
                 size_t posEnd = t.find_first_of(delim, pos);
-                std::string u = t.substr(pos,posEnd);//(t, pos);
-                /*u.resize(posEnd - pos);*/
+                std::string u = t.substr(pos, posEnd - pos);
                 second.push_back(u);
+                if (posEnd == std::string::npos) // no closing parenthesis
+                    break;
                 t = t.substr(posEnd+1);
             }
         }
-- 
2.43.0


From c7611e51d4bbaf919048e2d7f380c19ed5df259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:32:26 +0000
Subject: [PATCH 069/111] fix: moBinaryPartition reads back what it prints

The documented text holds the selected and the rejected atoms and the reader
expects both, but only the selected ones were printed; the reader also added to
the previous content instead of replacing it.
---
 mo/src/problems/partition/moBinaryPartition.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartition.h b/mo/src/problems/partition/moBinaryPartition.h
index 7feaef0..ba7957f 100644
--- a/mo/src/problems/partition/moBinaryPartition.h
+++ b/mo/src/problems/partition/moBinaryPartition.h
@@ -151,12 +151,10 @@ class moBinaryPartition : public EO<FitT>
         virtual void printOn(std::ostream& out) const override
         {
             this->printSelectedOn(out);
-            // Printing the rejected atom should not be necessary,
-            // as this is the complementary set of the selected.
-            // out << "   ";
-            // out << rejected.size() << "  "; // Size.
-            // std::copy(std::begin(rejected), std::end(rejected),
-            //     std::ostream_iterator<AtomType>(out, " ")); // Values.
+            out << "   ";
+            out << rejected.size() << "  "; // Size.
+            std::copy(std::begin(rejected), std::end(rejected),
+                std::ostream_iterator<AtomType>(out, " ")); // Values.
         }
 
         /** Deserialization of the `selected` and `rejected` atoms.
@@ -167,6 +165,8 @@ class moBinaryPartition : public EO<FitT>
         virtual void readFrom(std::istream& in) override
         {
             EO<FitT>::readFrom(in); // Fitness.
+            selected.clear();
+            rejected.clear();
             unsigned size;
             in >> size; // Size.
             for(size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 08d410520848760ef34f923d8e381b210511296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:34 +0000
Subject: [PATCH 070/111] fix: describing a new fitness term makes room for it

The description was written one past the end of the table.
---
 eo/src/eoScalarFitnessAssembled.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoScalarFitnessAssembled.h b/eo/src/eoScalarFitnessAssembled.h
index 50e9038..bbf98f1 100644
--- a/eo/src/eoScalarFitnessAssembled.h
+++ b/eo/src/eoScalarFitnessAssembled.h
@@ -54,7 +54,7 @@ public:
     if ( _idx < TermDescriptions.size() )
       TermDescriptions[_idx] = _descr;
     else{
-      TermDescriptions.resize(_idx, "Unnamed variable" );
+      TermDescriptions.resize(_idx + 1, "Unnamed variable" );
       TermDescriptions[_idx] = _descr;
     }
   }
-- 
2.43.0


From 175cb4f4995ec3cd375f25c332b7b9b9dd0531e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:42 +0000
Subject: [PATCH 071/111] fix: adding a number to a dual fitness leaves the
 fitness unchanged

The binary +, - and / with a number changed their left operand, unlike those
with another fitness.
---
 eo/src/eoDualFitness.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 7fdf402..30267f0 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -288,8 +288,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator+( T that )
     {
-        this->_value += that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from += that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -302,8 +302,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator-( T that )
     {
-        this->_value -= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from -= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
@@ -317,8 +317,8 @@ public:
     template<class T>
     eoDualFitness<BaseT,Cmp> operator/( T that )
     {
-        this->_value /= that;
-        return *this;
+        eoDualFitness<BaseT,Cmp> from( *this );
+        return from /= that;
     }
 
     // Add this fitness's value to that other, and return a _new_ instance with the result.
-- 
2.43.0


From 4b2ff070983400bed7b3d1956e3b8601a029ca6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:06 +0000
Subject: [PATCH 072/111] fix: shared pointers made by a forge are never null
 and follow their own cache

---
 eo/src/eoForge.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..9473379 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -139,7 +139,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr(bool no_cache = true) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 // if(_instantiated) {
                     // delete _instantiated;
                 // }
@@ -202,8 +202,8 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
-            if(no_cache or _instantiated == nullptr) {
-                _instantiated_ptr = std::shared_ptr<Op>();
+            if(no_cache or _instantiated_ptr == nullptr) {
+                _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
         }
-- 
2.43.0


From 738e68eed36dd4024143977b37ef793f4ea73ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:06 +0000
Subject: [PATCH 073/111] fix: eoForgeMap::setup replaces the named operator

---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 9473379..3983b77 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -479,7 +479,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             delete this->at(name); // Silent on nullptr.
             auto pfo = new eoForgeOperator<Itf,Op,std::decay_t<Args>...>(
                     std::forward<Args>(args)...);
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         /** Specialization for empty constructors.
@@ -489,7 +489,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
         {
             delete this->at(name);
             auto pfo = new eoForgeOperator<Itf,Op>;
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         virtual ~eoForgeMap()
-- 
2.43.0


From 41b5c429dea44787eb667bc111bc177cd2bd2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:06 +0000
Subject: [PATCH 074/111] fix: eoFastGA default offspring size follows the
 population of each run

---
 eo/src/eoFastGA.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoFastGA.h b/eo/src/eoFastGA.h
index 91300d4..aac0b44 100644
--- a/eo/src/eoFastGA.h
+++ b/eo/src/eoFastGA.h
@@ -86,15 +86,16 @@ public:
 #endif
         // Set lambda to the pop size
         // if it was not set up at construction.
-        if(_offsprings_size == 0) {
+        double offsprings_size = _offsprings_size;
+        if(offsprings_size == 0) {
             // eo::log << eo::debug << "Set offspring size to: " << pop.size() << std::endl;
-            _offsprings_size = pop.size();
+            offsprings_size = pop.size();
         }
 
         do {
             eoPop<EOT> offsprings;
 
-            for(size_t i=0; i < _offsprings_size; ++i) {
+            for(size_t i=0; i < offsprings_size; ++i) {
                 // eo::log << eo::xdebug << "\tOffspring #" << i << std::endl;
 
                 if(eo::rng.flip(_rate_crossover)) {
@@ -148,7 +149,7 @@ public:
                     offsprings.push_back(sol3);
                 }
             }
-            assert(offsprings.size() == _offsprings_size);
+            assert(offsprings.size() == offsprings_size);
 
             _pop_eval(pop, offsprings);
             _replace(pop, offsprings);
-- 
2.43.0


From 56ac269d90173962a9d2aabfa0be77e651bcd7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:37 +0000
Subject: [PATCH 075/111] fix: replacement parameters are read from the
 replacement option, not from the selection option

---
 eo/src/do/make_algo_scalar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/do/make_algo_scalar.h b/eo/src/do/make_algo_scalar.h
index 7819a42..76cc273 100644
--- a/eo/src/do/make_algo_scalar.h
+++ b/eo/src/do/make_algo_scalar.h
@@ -240,7 +240,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("6"));
         }
       else        // parameter passed by user as EPTour(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoEPReplacement<EOT>(detSize);
     }
@@ -260,7 +260,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("2"));
         }
       else        // parameter passed by user as SSGADet(T)
-        detSize = atoi(ppSelect.second[0].c_str());
+        detSize = atoi(ppReplace.second[0].c_str());
 
       replace = new eoSSGADetTournamentReplacement<EOT>(detSize);
     }
@@ -275,7 +275,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc
           ppReplace.second.push_back(std::string("1"));
         }
       else        // parameter passed by user as SSGADet(T)
-        p = atof(ppSelect.second[0].c_str());
+        p = atof(ppReplace.second[0].c_str());
 
       replace = new eoSSGAStochTournamentReplacement<EOT>(p);
     }
-- 
2.43.0


From e20d3eb5aef0423b5aeb853aea6f670faa3f5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:37 +0000
Subject: [PATCH 076/111] fix: do_make_algo_scalar of make_algo_easea.h returns
 the algorithm it makes from an eoEvalFunc

---
 eo/src/do/make_algo_easea.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/do/make_algo_easea.h b/eo/src/do/make_algo_easea.h
index bf5b8b1..236dfc8 100644
--- a/eo/src/do/make_algo_easea.h
+++ b/eo/src/do/make_algo_easea.h
@@ -381,7 +381,7 @@ eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoPopEvalF
 template <class EOT>
 eoAlgo<EOT> & do_make_algo_scalar(eoParser& _parser, eoState& _state, eoEvalFunc<EOT>& _eval, eoContinue<EOT>& _continue, eoGenOp<EOT>& _op)
 {
-         do_make_algo_scalar( _parser, _state, *(new eoPopLoopEval<EOT>(_eval)), _continue, _op);
+         return do_make_algo_scalar( _parser, _state, _state.storeFunctor(new eoPopLoopEval<EOT>(_eval)), _continue, _op);
 }
 
 
-- 
2.43.0


From 90236da7123c996e26e61fde23c13172892a5b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:50 +0000
Subject: [PATCH 077/111] fix: a loaded population that is too large keeps its
 best individuals

---
 eo/src/do/make_pop.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/eo/src/do/make_pop.h b/eo/src/do/make_pop.h
index 516d7a7..813257d 100644
--- a/eo/src/do/make_pop.h
+++ b/eo/src/do/make_pop.h
@@ -79,6 +79,12 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
       inState.registerObject(pop);
       inState.registerObject(rng);
       inState.load(loadNameParam.value()); //  load the pop and the rng
+      if (pop.size() > popSize.value())
+        {
+          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
+          pop.sort();
+          pop.resize(popSize.value());
+        }
       // the fitness is read in the file:
       // do only evaluate the pop if the fitness has changed
       if (recomputeFitnessParam.value())
@@ -88,11 +94,6 @@ eoPop<EOT>&  do_make_pop(eoParser & _parser, eoState& _state, eoInit<EOT> & _ini
         }
       if (pop.size() < popSize.value())
         std::cerr << "WARNING, only " << pop.size() << " individuals read in file " << loadNameParam.value() << "\nThe remaining " << popSize.value() - pop.size() << " will be randomly drawn" << std::endl;
-      if (pop.size() > popSize.value())
-        {
-          std::cerr << "WARNING, Load file contained too many individuals. Only the best will be retained" << std::endl;
-          pop.resize(popSize.value());
-        }
     }
   else				// nothing loaded from a file
     {
-- 
2.43.0


From 879c4909970a1e7dafd3402b6b135846c4b45cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:51 +0000
Subject: [PATCH 078/111] fix: eoHowMany::value sets the rate it is given

---
 eo/src/utils/eoHowMany.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index a24eeec..30f76da 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -185,6 +185,8 @@ public:
   {
     if (_interpret_as_rate)
       {
+        rate = _rate;
+        count = 0;
         if (_rate<0)
           {
             rate = 1.0+_rate;
-- 
2.43.0


From 96e5f0ef46a979b01f149ac96c1ebdac7188776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:11 +0000
Subject: [PATCH 079/111] fix: real-valued make_op with only crossovers or only
 mutations

With all crossover rates (or all mutation rates) set to zero the combined
operator is not created, but its null pointer was dereferenced.
---
 eo/src/es/make_op_real.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/eo/src/es/make_op_real.h b/eo/src/es/make_op_real.h
index 0c202d7..9448dd3 100644
--- a/eo/src/es/make_op_real.h
+++ b/eo/src/es/make_op_real.h
@@ -274,13 +274,19 @@ eoGenOp<EOT> & do_make_op(eoParser& _parser, eoState& _state, eoRealInitBounded<
   _state.storeFunctor(cross);
   ptQuad = new eoQuadCloneOp<EOT>;
   _state.storeFunctor(ptQuad);
-  cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
-  cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+  if (bCross)
+    {
+      cross->add(*ptCombinedQuadOp, pCrossParam.value()); // user crossover
+      cross->add(*ptQuad, 1-pCrossParam.value()); // clone operator
+    }
+  else
+    cross->add(*ptQuad, 1.0); // no crossover at all: always clone
 
   // now the sequential
   eoSequentialOp<EOT> & op =  _state.storeFunctor(new eoSequentialOp<EOT>);
   op.add(*cross, 1.0);   // always crossover (but clone with prob 1-pCross
-  op.add(*ptCombinedMonOp, pMutParam.value());
+  if (bMut)
+    op.add(*ptCombinedMonOp, pMutParam.value());
 
   // that's it!
   return op;
-- 
2.43.0


From c42016c43d1610d95e248fe3610f35ba419a4611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:11 +0000
Subject: [PATCH 080/111] fix: let eoG3Replacement handle rates and complements

The number of survivors was computed from the offspring count, which is
only right for an absolute number of eliminated parents; any other
eoHowMany made the replacement throw.
---
 eo/src/eoG3Replacement.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/eo/src/eoG3Replacement.h b/eo/src/eoG3Replacement.h
index e9de717..c3259dd 100644
--- a/eo/src/eoG3Replacement.h
+++ b/eo/src/eoG3Replacement.h
@@ -52,9 +52,7 @@ class eoG3Replacement : public eoReplacement<EOT>
 public:
   eoG3Replacement(eoHowMany _howManyEliminatedParents = eoHowMany(2, false)) :
     // split truncates the parents and returns eliminated parents
-    split(_howManyEliminatedParents, true),
-    // reduce truncates the offpsring and does not return eliminated guys
-    reduce(-_howManyEliminatedParents, false)
+    split(_howManyEliminatedParents, true)
   {}
 
     void operator()(eoPop<EOT> & _parents, eoPop<EOT> & _offspring)
@@ -65,21 +63,15 @@ public:
       // merge temp into offspring
       plus(temp, _offspring);      // add temp to _offspring (a little inconsistent!)
 
-      // reduce merged
-      reduce(_offspring, temp);    // temp dummy arg. will not be modified
-      // minimla check:
-      if (_offspring.size() != toKeep)
-        {
-          std::cerr << "Les tailles " << _offspring.size() << " " << toKeep << std::endl;
-        throw eoException("eoG3Replacement: wrong number of remaining offspring");
-        }
+      // reduce merged: keep the best ones
+      _offspring.sort();
+      _offspring.resize(toKeep);
       // and put back into _parents
       plus(_offspring, _parents);
     }
 
 private:
   eoLinearTruncateSplit<EOT> split; // few parents to truncate -> linear
-  eoTruncateSplit<EOT> reduce;     // supposedly many offspring to truncate
   eoPlus<EOT> plus;
 };
 
-- 
2.43.0


From b038795cf7c14cdd90fe0c0628fce340d3ac15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:11 +0000
Subject: [PATCH 081/111] fix: update the neighbourhood bests of the ring
 topology

The unsigned loop counter started above its limit, so the best of a
neighbourhood never changed after the setup.
---
 eo/src/eoRingTopology.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..d1f042a 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -117,12 +117,11 @@ public:
             for(unsigned i=0;i<_po.size();i++)
                         _po.bestPositions[i]=_po[i];
         }
-        // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
+        // update the best of each neighborhood the particle belongs to if it is "better"
+        for (unsigned i=0; i < neighborhoods.size(); i++)
                 {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
+                        if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                                neighborhoods[i].best(_po);
                 }
      }
 
-- 
2.43.0


From e2f6c101ff7a55f56057b037f1aa83eba7407005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:11 +0000
Subject: [PATCH 082/111] fix: make eoStarTopology implement globalBest

The overload had another signature than the abstract one, so the star
topology could not be instantiated.
---
 eo/src/eoStarTopology.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoStarTopology.h b/eo/src/eoStarTopology.h
index 6083dbb..73b9699 100644
--- a/eo/src/eoStarTopology.h
+++ b/eo/src/eoStarTopology.h
@@ -114,7 +114,7 @@ public:
          * Return the global best of the topology
          */
 
-    virtual POT & globalBest(const eoPop<POT>&)
+    virtual POT & globalBest()
     {
         return neighborhood.best();
     }
-- 
2.43.0


From a4ca5e7b5775f2f296496d32b73a77cf78551c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:29 +0000
Subject: [PATCH 083/111] fix: implement getTopology in the weighted velocities

The three classes stayed abstract and could not be instantiated.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 7 ++++++-
 eo/src/eoFixedInertiaWeightedVelocity.h      | 7 ++++++-
 eo/src/eoVariableInertiaWeightedVelocity.h   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index cff14bc..acfcfa0 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -185,7 +185,12 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
-
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 protected:
     eoTopology < POT > & topology;
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 996845c..b073108 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -171,7 +171,12 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
-
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 protected:
     eoTopology < POT > & topology;
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 33bbe4f..3e8385d 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -177,7 +177,12 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
-
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
 
 protected:
     eoTopology < POT > & topology;
-- 
2.43.0


From 3971c1a27466539e692b7e9c62ba3861d480335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:29 +0000
Subject: [PATCH 084/111] fix: keep the coefficients of the velocities by value

The velocities stored references to their arguments: constructing one
with literals, as the lessons do, left them dangling.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 6 +++---
 eo/src/eoConstrictedVelocity.h               | 6 +++---
 eo/src/eoExtendedVelocity.h                  | 8 ++++----
 eo/src/eoFixedInertiaWeightedVelocity.h      | 6 +++---
 eo/src/eoIntegerVelocity.h                   | 6 +++---
 eo/src/eoStandardVelocity.h                  | 6 +++---
 eo/src/eoVariableInertiaWeightedVelocity.h   | 4 ++--
 7 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index acfcfa0..ba2a145 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -195,11 +195,11 @@ public:
 protected:
     eoTopology < POT > & topology;
 
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
 
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoConstrictedVelocity.h b/eo/src/eoConstrictedVelocity.h
index 2e13bc1..aa41987 100644
--- a/eo/src/eoConstrictedVelocity.h
+++ b/eo/src/eoConstrictedVelocity.h
@@ -183,9 +183,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
-    const VelocityType & coeff;   // the fixed constriction coefficient
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
+    const VelocityType coeff;   // the fixed constriction coefficient
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoExtendedVelocity.h b/eo/src/eoExtendedVelocity.h
index bcbd51c..36024e5 100644
--- a/eo/src/eoExtendedVelocity.h
+++ b/eo/src/eoExtendedVelocity.h
@@ -193,10 +193,10 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index b073108..e405ebf 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -180,9 +180,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
-    const VelocityType & weight;   // the fixed weight
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
+    const VelocityType weight;   // the fixed weight
     eoRng & gen;        // the random generator
 
     eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
diff --git a/eo/src/eoIntegerVelocity.h b/eo/src/eoIntegerVelocity.h
index 2ff8108..d65dcc4 100644
--- a/eo/src/eoIntegerVelocity.h
+++ b/eo/src/eoIntegerVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
-    const VelocityType & c3;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
+    const VelocityType c3;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoStandardVelocity.h b/eo/src/eoStandardVelocity.h
index 3f67eec..b1c22b8 100644
--- a/eo/src/eoStandardVelocity.h
+++ b/eo/src/eoStandardVelocity.h
@@ -178,9 +178,9 @@ public:
 
 protected:
     eoTopology < POT > & topology;
-    const VelocityType & omega;  // social/cognitive coefficient
-    const VelocityType & c1;  // social/cognitive coefficient
-    const VelocityType & c2;  // social/cognitive coefficient
+    const VelocityType omega;  // social/cognitive coefficient
+    const VelocityType c1;  // social/cognitive coefficient
+    const VelocityType c2;  // social/cognitive coefficient
 
     eoRealVectorBounds bounds; // REAL bounds even if the velocity could be of another type.
         eoRealBoundModifier & bndsModifier;
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 3e8385d..00722f7 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -187,8 +187,8 @@ public:
 protected:
     eoTopology < POT > & topology;
     eoWeightUpdater<VelocityType> & weightUpdater;      // the updater used to make the weight evoluate
-    const VelocityType & c1;    // learning factor 1
-    const VelocityType  & c2;    // learning factor 2
+    const VelocityType c1;    // learning factor 1
+    const VelocityType c2;    // learning factor 2
 
         eoRealVectorBounds & bounds; // REAL bounds even if the velocity could be of another type.
     eoRealBoundModifier & bndsModifier;
-- 
2.43.0


From 29760ee3201880db5345780eb315e56b401bca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:29 +0000
Subject: [PATCH 085/111] fix: tell whether the best fitness of a particle is
 valid

The flag was never initialised and asking for the best fitness tested
the validity of the current fitness instead.
---
 eo/src/PO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..33414b3 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
@@ -79,7 +79,7 @@ public:
     */
     Fitness best () const
     {
-        if (invalid ())
+        if (invalidBest ())
             throw eoInvalidFitnessError("invalid best fitness in PO.h");
         return bestFitness;
     }
-- 
2.43.0


From fde187f1ee3fbeb101f42abd412c92049a546b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:45 +0000
Subject: [PATCH 086/111] fix: refresh the ancestors' sizes when a subtree is
 replaced within its own tree

---
 eo/src/gp/parse_tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index 6b9ab80..b3b5ead 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -243,7 +243,9 @@ public :
             if (s.get_root() == get_root())
         { // from the same tree, maybe a child. Don't take any chances
             subtree anotherS = s;
-            return copy(anotherS);
+            copy(anotherS);
+            updateAfterInsert();
+            return *this;
         }
 
                 copy(s);
-- 
2.43.0


From 60c37f9edc952183ea44f96beb29c9a5eb5fc71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:45 +0000
Subject: [PATCH 087/111] fix: keep parents in place and refresh both trees
 when subtrees are swapped

---
 eo/src/gp/parse_tree.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index b3b5ead..e34ed0e 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -383,12 +383,11 @@ public :
         adopt();
         y.adopt();
 
-        do_the_swap(parent, y.parent);
-
         do_the_swap(_cumulative_size, y._cumulative_size);
         do_the_swap(_depth, y._depth);
         do_the_swap(_size, y._size);
                 updateAfterInsert();
+                y.updateAfterInsert();
         }
 
 protected :
-- 
2.43.0


From 2df7ef1acec3e0f7659151cc79c766a762bbb698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:45 +0000
Subject: [PATCH 088/111] fix: pass the result vector in the const find_nodes
 of a parse tree

---
 eo/src/gp/parse_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index e34ed0e..d9cbf35 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -661,7 +661,7 @@ private :
     template <class Pred>
     void find_nodes(std::vector<const subtree*>& result, Pred& p) const
     {
-        _root.find_nodes(p);
+        _root.find_nodes(result, p);
     }
 
         /* Customized Swap */
-- 
2.43.0


From 694bc55a479138e403b2ae20727cfcb2d5d83788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:45 +0000
Subject: [PATCH 089/111] fix: make get_cumulative of a parse tree select in
 proportion to subtree sizes

---
 eo/src/gp/parse_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index d9cbf35..b2b4c5f 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -948,9 +948,9 @@ private :
     { return _root.get_node(i); }
 
     subtree& get_cumulative(size_t i)
-    { return const_cast<subtree&>(_root.get_cumulative(i)); }
+    { return const_cast<subtree&>(_root.select_cumulative(i)); }
     const subtree& get_cumulative(size_t i) const
-    { return get_cumulative(i); }
+    { return _root.select_cumulative(i); }
 
     private :
 
-- 
2.43.0


From 71f09e7a58bebce4e7b55f000baef5199a474b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:52 +0000
Subject: [PATCH 090/111] fix: write serialized numbers with enough digits to
 read them back exactly

---
 eo/src/serial/SerialString.h | 2 +-
 eo/src/serial/Utils.h        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/serial/SerialString.h b/eo/src/serial/SerialString.h
index 2ef1f94..95edcfa 100644
--- a/eo/src/serial/SerialString.h
+++ b/eo/src/serial/SerialString.h
@@ -83,7 +83,7 @@ namespace eoserial
         inline void String::deserialize( T & value ) const
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << *this;
             ss >> value;
         }
diff --git a/eo/src/serial/Utils.h b/eo/src/serial/Utils.h
index 5acc558..b0874c8 100644
--- a/eo/src/serial/Utils.h
+++ b/eo/src/serial/Utils.h
@@ -269,7 +269,7 @@ namespace eoserial
         Entity* operator()( const T& value )
         {
             std::stringstream ss;
-            ss.precision(std::numeric_limits<double>::digits10 + 1);
+            ss.precision(std::numeric_limits<double>::max_digits10);
             ss << value;
             return new String(ss.str());
         }
@@ -419,7 +419,7 @@ namespace eoserial
     String* make( const T & value )
     {
         std::stringstream ss;
-        ss.precision(std::numeric_limits<double>::digits10 + 1);
+        ss.precision(std::numeric_limits<double>::max_digits10);
         ss << value;
         return new String( ss.str() );
     }
-- 
2.43.0


From 13ed195cde118b6cd53a81fd9f7d4ba17f705232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:52 +0000
Subject: [PATCH 091/111] fix: let vectors, lists and maps be packed, nested or
 not

---
 eo/src/serial/Utils.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eo/src/serial/Utils.h b/eo/src/serial/Utils.h
index b0874c8..9b5ad47 100644
--- a/eo/src/serial/Utils.h
+++ b/eo/src/serial/Utils.h
@@ -290,6 +290,12 @@ namespace eoserial
     // Pre declaration for being usable in packIterable.
     template<class T>
     inline Entity* pack( const T& value );
+    template<class T>
+    inline Entity* pack( const std::vector<T>& v );
+    template<class T>
+    inline Entity* pack( const std::list<T>& l );
+    template<class T>
+    inline Entity* pack( const std::map<std::string, T>& map );
 
     /**
      * @brief Pack method for iterable (begin, end) objects.
@@ -298,7 +304,7 @@ namespace eoserial
     inline Entity* packIterable( const T& container )
     {
         Array* arr = new Array;
-        for( Array::const_iterator it = container.begin(), end = container.end();
+        for( typename T::const_iterator it = container.begin(), end = container.end();
                 it != end;
                 ++it )
         {
@@ -332,7 +338,7 @@ namespace eoserial
     inline Entity* pack( const std::map<std::string, T>& map )
     {
         Object* obj = new Object;
-        for( Object::const_iterator it = map.begin(), end = map.end();
+        for( typename std::map<std::string, T>::const_iterator it = map.begin(), end = map.end();
                 it != end;
                 ++it )
         {
-- 
2.43.0


From 0c1eedbcbf87380a19dd1c3e55dfb230e11cb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:52 +0000
Subject: [PATCH 092/111] fix: escape quotes and backslashes in serialized
 strings and restore them when parsing

---
 eo/src/serial/Parser.cpp       | 10 +++++++++-
 eo/src/serial/SerialObject.cpp |  4 +++-
 eo/src/serial/SerialString.cpp | 12 +++++++++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/eo/src/serial/Parser.cpp b/eo/src/serial/Parser.cpp
index e78b353..da92592 100644
--- a/eo/src/serial/Parser.cpp
+++ b/eo/src/serial/Parser.cpp
@@ -83,7 +83,15 @@ static std::string parseString(const std::string& str, size_t & pos)
         pos = secondQuote;
     } while( backslashesCount % 2 == 1 );
 
-    value = str.substr( firstQuote+1, secondQuote-firstQuote-1 );
+    // drop the backslashes which escape a character
+    for (size_t i = firstQuote+1; i < secondQuote; ++i)
+    {
+        if (str[ i ] == '\\')
+        {
+            ++i;
+        }
+        value += str[ i ];
+    }
     pos = secondQuote + 1;
     return value;
 }
diff --git a/eo/src/serial/SerialObject.cpp b/eo/src/serial/SerialObject.cpp
index e926e44..6d5f215 100644
--- a/eo/src/serial/SerialObject.cpp
+++ b/eo/src/serial/SerialObject.cpp
@@ -20,6 +20,7 @@ Authors:
     Benjamin Bouvier <benjamin.bouvier@gmail.com>
 */
 # include "SerialObject.h"
+# include "SerialString.h"
 
 using namespace eoserial;
 
@@ -40,7 +41,8 @@ namespace eoserial
                 out << ", ";
             }
 
-            out << '"' << it->first << "\":";   // key
+            String( it->first ).print( out );   // key
+            out << ':';
             it->second->print( out );           // value
         }
         out << "}\n";
diff --git a/eo/src/serial/SerialString.cpp b/eo/src/serial/SerialString.cpp
index 6d49106..4227a04 100644
--- a/eo/src/serial/SerialString.cpp
+++ b/eo/src/serial/SerialString.cpp
@@ -25,7 +25,17 @@ namespace eoserial
 {
     std::ostream& String::print( std::ostream& out ) const
     {
-        out << '"' << *this << '"';
+        out << '"';
+        for (const_iterator it = begin(), end = this->end(); it != end; ++it)
+        {
+            // double quotes and backslashes have to be escaped
+            if (*it == '"' || *it == '\\')
+            {
+                out << '\\';
+            }
+            out << *it;
+        }
+        out << '"';
         return out;
     }
 } // namespace eoserial
-- 
2.43.0


From 74ba609f8a2833b1c144c75cf2fd76739f3be5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 093/111] fix: centre the sample when estimating the covariance
 of a multi-normal distribution

---
 edo/src/edoEstimatorNormalMulti.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/edo/src/edoEstimatorNormalMulti.h b/edo/src/edoEstimatorNormalMulti.h
index 1298d8a..060b6c3 100644
--- a/edo/src/edoEstimatorNormalMulti.h
+++ b/edo/src/edoEstimatorNormalMulti.h
@@ -199,16 +199,6 @@ public:
                     }
             }
 
-            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
-            // variance-covariance matrix computation : transpose(A) * A
-            Matrix var = sample.transpose() * sample;
-
-            // Be sure that the symmetric matrix got the good size
-            assert(var.innerSize() == s_size);
-            assert(var.outerSize() == s_size);
-
-            _varcovar = var / p_size;
-
             // unit vector
             Vector u( p_size);
             u = Vector::Constant(p_size, 1);
@@ -218,6 +208,17 @@ public:
 
             // division by n
             _mean /= p_size;
+
+            // variance-covariance matrix are symmetric, thus a triangular storage is sufficient
+            // variance-covariance matrix computation : transpose(A) * A, with A the centered sample
+            sample.rowwise() -= _mean.transpose();
+            Matrix var = sample.transpose() * sample;
+
+            // Be sure that the symmetric matrix got the good size
+            assert(var.innerSize() == s_size);
+            assert(var.outerSize() == s_size);
+
+            _varcovar = var / p_size;
         }
 
         const Matrix& get_varcovar() const {return _varcovar;}
-- 
2.43.0


From 37ab2cdac52ca2554a629d66bd84690002a7bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 094/111] fix: undo the pivoting of the decomposition when
 sampling a multi-normal distribution

---
 edo/src/edoSamplerNormalMulti.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index d6e3b9b..a1cf61e 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -125,7 +125,7 @@ public:
 
         // LsD = cholesky decomposition of varcovar
 
-        // Computes L and mD such as V = L mD L^T
+        // Computes P, L and mD such as V = P^T L mD L^T P
         Eigen::LDLT<Matrix> cholesky( distrib.varcovar() );
         Matrix L = cholesky.matrixL();
         assert(L.innerSize() == size);
@@ -135,15 +135,15 @@ public:
         assert(mD.innerSize() == size);
         assert(mD.outerSize() == size);
 
-        // now compute the final symetric matrix: LsD = L mD^1/2
-        // remember that V = ( L mD^1/2) ( L mD^1/2)^T
+        // now compute the final symetric matrix: LsD = P^T L mD^1/2
+        // remember that V = ( P^T L mD^1/2) ( P^T L mD^1/2)^T
         // fortunately, the square root of a diagonal matrix is the square 
         // root of all its elements
         Matrix sqrtD = mD.cwiseSqrt();
         assert(sqrtD.innerSize() == size);
         assert(sqrtD.outerSize() == size);
 
-        Matrix LsD = L * sqrtD;
+        Matrix LsD = cholesky.transpositionsP().transpose() * Matrix( L * sqrtD );
         assert(LsD.innerSize() == size);
         assert(LsD.outerSize() == size);
 
@@ -155,7 +155,7 @@ public:
         assert(T.innerSize() == size);
         assert(T.outerSize() == 1);
 
-        // LDT = (L mD^1/2) * T
+        // LDT = (P^T L mD^1/2) * T
         Vector LDT = LsD * T;
         assert(LDT.innerSize() == size);
         assert(LDT.outerSize() == 1);
-- 
2.43.0


From 2fae52ddc1d41d2f44f646ed92ccea870da30efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 095/111] fix: let the centring modifiers move the distribution
 and not a copy of its parameters

---
 edo/src/edoNormalMono.h        | 2 +-
 edo/src/edoNormalMulti.h       | 1 +
 edo/src/edoNormalMultiCenter.h | 2 +-
 edo/src/edoVectorBounds.h      | 4 ++--
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/edo/src/edoNormalMono.h b/edo/src/edoNormalMono.h
index 1260446..f96d3f7 100644
--- a/edo/src/edoNormalMono.h
+++ b/edo/src/edoNormalMono.h
@@ -64,7 +64,7 @@ public:
         return _mean.size();
     }
 
-    EOT mean(){return _mean;}
+    EOT& mean(){return _mean;}
     EOT variance(){return _variance;}
 
 private:
diff --git a/edo/src/edoNormalMulti.h b/edo/src/edoNormalMulti.h
index a64a912..c601040 100644
--- a/edo/src/edoNormalMulti.h
+++ b/edo/src/edoNormalMulti.h
@@ -149,6 +149,7 @@ public:
     }
 
     Vector mean() const {return _mean;}
+    Vector& mean() {return _mean;}
     Matrix varcovar() const {return _varcovar;}
 
 private:
diff --git a/edo/src/edoNormalMultiCenter.h b/edo/src/edoNormalMultiCenter.h
index 30510c6..9f96585 100644
--- a/edo/src/edoNormalMultiCenter.h
+++ b/edo/src/edoNormalMultiCenter.h
@@ -69,7 +69,7 @@ public:
 
     void operator() ( edoNormalMulti< EOT >& distrib, EOT& mass )
     {
-        assert( distrib.size() == mass.innerSize() );
+        assert( distrib.size() == mass.size() );
         Vector mean( distrib.size() );
         for( unsigned int i=0; i < distrib.size(); i++ ) {
             mean(i) = mass[i];
diff --git a/edo/src/edoVectorBounds.h b/edo/src/edoVectorBounds.h
index 7d01bad..2aae6ea 100644
--- a/edo/src/edoVectorBounds.h
+++ b/edo/src/edoVectorBounds.h
@@ -41,8 +41,8 @@ public:
         assert(_min.size() == _max.size());
     }
 
-    EOT min(){return _min;}
-    EOT max(){return _max;}
+    EOT& min(){return _min;}
+    EOT& max(){return _max;}
 
     unsigned int size()
     {
-- 
2.43.0


From 1b4025cdec72bf927ca9372e8870200a34b9cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 096/111] fix: do not free the distribution that the stateless
 combined estimator goes on using

---
 edo/src/edoEstimatorCombined.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edo/src/edoEstimatorCombined.h b/edo/src/edoEstimatorCombined.h
index 3c546bd..bfbf214 100644
--- a/edo/src/edoEstimatorCombined.h
+++ b/edo/src/edoEstimatorCombined.h
@@ -88,8 +88,7 @@ public:
 
     virtual D operator()( eoPop<EOType>& pop )
     {
-        delete &(this->_distrib);
-        this->_distrib = *(new D);
+        this->_distrib = D();
         return edoEstimatorCombinedAdaptive<D>::operator()(pop);
     }
 
-- 
2.43.0


From 4808560cc7f60f41e85bc0f5cec946b9b83512b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 097/111] fix: set the dimension of an adaptive normal
 distribution built from its parameters

---
 edo/src/edoNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoNormalAdaptive.h b/edo/src/edoNormalAdaptive.h
index 7b60d2b..9e2963c 100644
--- a/edo/src/edoNormalAdaptive.h
+++ b/edo/src/edoNormalAdaptive.h
@@ -99,6 +99,7 @@ public:
             Vector p_c,
             Vector p_s
         ) :
+        _dim( dim ),
         _mean( mean ),
         _C( C ),
         _B( B ),
-- 
2.43.0


From 3fe5582668dd46080dc2f16129833b1cf2950540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:44 +0000
Subject: [PATCH 098/111] fix: make edoTransform usable and replace the
 population by as many samples

---
 edo/src/edoTransform.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edo/src/edoTransform.h b/edo/src/edoTransform.h
index 20421d5..a7f88d0 100644
--- a/edo/src/edoTransform.h
+++ b/edo/src/edoTransform.h
@@ -39,7 +39,7 @@ Authors:
  * @ingroup Wrappers
  */
 template<class D>
-class edoTransform : public eoTransform< eoPop<typename D::EOType>& >
+class edoTransform : public eoTransform< typename D::EOType >
 {
 public:
     typedef typename D::EOType EOType;
@@ -67,22 +67,21 @@ public:
     typedef typename D::EOType EOType;
 
     edoTransformAdaptive( D & distrib, edoEstimator<D> & estimator, edoSampler<D> & sampler )
-        : _distrib(distrib), _estimator(estimator), _sampler(sampler)
+        : edoTransform<D>(estimator, sampler), _distrib(distrib)
     {}
 
     virtual void operator()( eoPop<EOType> & pop )
     {
-        _distrib = _estimator( pop );
+        unsigned int size = pop.size();
+        _distrib = this->_estimator( pop );
         pop.clear();
-        for( unsigned int i = 0; i < pop.size(); ++i ) {
-            pop.push_back( _sampler(_distrib) );
+        for( unsigned int i = 0; i < size; ++i ) {
+            pop.push_back( this->_sampler(_distrib) );
         }
     }
 
 protected:
     D & _distrib;
-    edoEstimator<D> & _estimator;
-    edoSampler<D> & _sampler;
 };
 
 
-- 
2.43.0


From 3eaba4bcefdc23221c073f65a3b29b679d29ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:34 +0000
Subject: [PATCH 099/111] fix: compare the ones of an individual with its own
 size when estimating a multi-binomial

---
 edo/src/edoEstimatorBinomialMulti.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorBinomialMulti.h b/edo/src/edoEstimatorBinomialMulti.h
index 7fd1a45..11a325c 100644
--- a/edo/src/edoEstimatorBinomialMulti.h
+++ b/edo/src/edoEstimatorBinomialMulti.h
@@ -97,7 +97,7 @@ public:
             assert( indiv.rows() == rows && indiv.cols() == cols );
 
             // the EOT matrix should be filled with 1 or 0 only
-            assert( indiv.sum() <= popsize );
+            assert( indiv.sum() <= rows * cols );
 
             probas += indiv / popsize;
 
-- 
2.43.0


From bcfedaf9c4db4801b7661c84b4ae6356f2c1c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:02 +0000
Subject: [PATCH 100/111] fix: sample a multi-normal distribution of singular
 covariance without producing NaN

---
 edo/src/edoSamplerNormalMulti.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edo/src/edoSamplerNormalMulti.h b/edo/src/edoSamplerNormalMulti.h
index a1cf61e..dc919f6 100644
--- a/edo/src/edoSamplerNormalMulti.h
+++ b/edo/src/edoSamplerNormalMulti.h
@@ -131,7 +131,8 @@ public:
         assert(L.innerSize() == size);
         assert(L.outerSize() == size);
 
-        Matrix mD = cholesky.vectorD().asDiagonal();
+        // rounding may leave slightly negative elements if V is singular
+        Matrix mD = cholesky.vectorD().cwiseMax( AtomType(0) ).asDiagonal();
         assert(mD.innerSize() == size);
         assert(mD.outerSize() == size);
 
-- 
2.43.0


From c40df52a1cf8efcea83001f1fad7e1cd09bcd28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:29 +0000
Subject: [PATCH 101/111] fix: build a mesh of a prime number of nodes without
 reading before the list of factors

When the first factor is already the one to use, there is no factor before it.
---
 smp/src/topology/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index e4b25ec..3924e1c 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -44,10 +44,10 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     // ListFact[i] contains first factor which produces a ratio above the variable _ratio,
     // or the last element if there is no ratio that can go over the variable _ratio. 
 	double r1 = (double)listFact[i] * listFact[i] / nbNode;
-	double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+	double r2 = i > 0 ? (double)listFact[i-1] * listFact[i-1] / nbNode : r1;
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (std::abs(r2 - _ratio) <= _ratio - r1)
+    if (i > 0 && std::abs(r2 - _ratio) <= _ratio - r1)
         height = listFact[i-1];
     else
         height = listFact[i];
-- 
2.43.0


From 05255dc889714362b618dfa754f3ca16e0930864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:29 +0000
Subject: [PATCH 102/111] fix: give a mesh the shape closest to the requested
 ratio

The distance of the larger candidate was taken without its absolute value, so the
larger candidate was kept even when the smaller one was closer.
---
 smp/src/topology/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index 3924e1c..70b8622 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -47,7 +47,7 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
 	double r2 = i > 0 ? (double)listFact[i-1] * listFact[i-1] / nbNode : r1;
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (i > 0 && std::abs(r2 - _ratio) <= _ratio - r1)
+    if (i > 0 && std::abs(r2 - _ratio) <= std::abs(r1 - _ratio))
         height = listFact[i-1];
     else
         height = listFact[i];
-- 
2.43.0


From b6b203092f89f8cfa7092bb5d10f34396ea99226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:29 +0000
Subject: [PATCH 103/111] fix: do not make the only node of a ring its own
 neighbour

---
 smp/src/topology/ring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/ring.cpp b/smp/src/topology/ring.cpp
index 4de953b..d33bee5 100644
--- a/smp/src/topology/ring.cpp
+++ b/smp/src/topology/ring.cpp
@@ -43,5 +43,5 @@ void paradiseo::smp::Ring::operator()(unsigned nbNode, std::vector<std::vector<b
     matrix.assign(nbNode, line);
 	
     for(unsigned i=0; i < nbNode; i++)
-        matrix[i][(i+1)%nbNode]=true;
+        matrix[i][(i+1)%nbNode] = (nbNode > 1);
 }	
-- 
2.43.0


From ca2bda6fe75e500e2a57b7f69b4bee4581c28b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:37 +0000
Subject: [PATCH 104/111] fix: make a change of topology of an island model
 effective

The assignment through the reference to the abstract topology copied nothing, so the
first topology stayed in use. Isolating a stopped island now also holds the lock the
change of topology relies on.
---
 smp/src/islandModel.cpp | 15 ++++++++-------
 smp/src/islandModel.h   |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index e32fb8e..99f6d15 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -32,7 +32,7 @@ Contact: paradiseo-help@lists.gforge.inria.fr
 
 template<class EOT>
 paradiseo::smp::IslandModel<EOT>::IslandModel(AbstractTopology& _topo) :
-    topo(_topo),
+    topo(&_topo),
     running(false)
 { }
 
@@ -80,8 +80,9 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             // If an island is stopped we need to isolate its node in the topology
             if(it.second && it.first->isStopped())
             {
+                std::lock_guard<std::mutex> lock(m);
                 it.second = false;
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
             }
         }        
         // Check sending
@@ -134,15 +135,15 @@ void paradiseo::smp::IslandModel<EOT>::setTopology(AbstractTopology& _topo)
 {
     // If we change topo, we need to protect it
     std::lock_guard<std::mutex> lock(m);
-    topo = _topo;
+    topo = &_topo;
     // If we change when the algorithm is running, we need to recontruct the topo
     if(running)
     {
-        topo.construct(islands.size());
+        topo->construct(islands.size());
         // If we change the topology during the algorithm, we need to isolate stopped islands
         for(auto it : islands)
             if(!it.second)
-                topo.isolateNode(table.getLeft()[it.first]);
+                topo->isolateNode(table.getLeft()[it.first]);
     }
 }
 
@@ -154,7 +155,7 @@ void paradiseo::smp::IslandModel<EOT>::send(void)
     {
         // Get the neighbors
         unsigned idFrom = table.getLeft()[listEmigrants.front().second];
-        std::vector<unsigned> neighbors = topo.getIdNeighbors(idFrom);
+        std::vector<unsigned> neighbors = topo->getIdNeighbors(idFrom);
         
         // Send elements to neighbors
         eoPop<EOT> migPop = std::move(listEmigrants.front().first);
@@ -185,7 +186,7 @@ void paradiseo::smp::IslandModel<EOT>::initModel(void)
         it.second = true; // Indicate islands are active
     
     // Construct topology according to the number of islands
-    topo.construct(islands.size());
+    topo->construct(islands.size());
     
     // Create table
     table = createTable();
diff --git a/smp/src/islandModel.h b/smp/src/islandModel.h
index 1b76550..7f6406c 100644
--- a/smp/src/islandModel.h
+++ b/smp/src/islandModel.h
@@ -99,7 +99,7 @@ protected:
     std::queue<std::pair<eoPop<EOT>,AIsland<EOT>*>> listEmigrants;
     Bimap<unsigned, AIsland<EOT>*> table;
     std::vector<std::pair<AIsland<EOT>*, bool>> islands;
-    AbstractTopology& topo;
+    AbstractTopology* topo;
     std::vector<std::shared_future<bool>> sentMessages;
     std::mutex m;
     std::atomic<bool> running;
-- 
2.43.0


From 70fdc5d0f8e33012633672bc05cc216f0c16fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:11 +0000
Subject: [PATCH 105/111] fix: give the static assignment a share for every
 worker

The shares were written into a vector that had only reserved room for them,
and not at all without runs to share, so reading and counting them down
worked on elements that did not exist.
---
 eo/src/mpi/eoMpiAssignmentAlgorithm.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
index 39ce02f..ad180dc 100644
--- a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
+++ b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
@@ -147,14 +147,13 @@ namespace eo
             busy.resize( nbWorkers, false );
             realRank = workers;
 
+            attributions.assign( nbWorkers, 0 );
+
             if( runs <= 0 )
             {
                 return;
             }
 
-            attributions.clear();
-            attributions.reserve( nbWorkers );
-
             // Let be the euclidean division of runs by nbWorkers :
             // runs == q * nbWorkers + r, 0 <= r < nbWorkers
             // This one liner affects q requests to each worker
-- 
2.43.0


From f22431e3beb53dee636ccf6f77d16d94f4a01d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:41 +0000
Subject: [PATCH 106/111] fix: let the process of rank 0 be a worker

The strategies answer -1 when no worker is available, but the master took an
assignee of rank 0 for none, dropped it and waited for an answer for ever.
---
 eo/src/mpi/eoMpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/eoMpi.h b/eo/src/mpi/eoMpi.h
index 1038078..3b67d67 100644
--- a/eo/src/mpi/eoMpi.h
+++ b/eo/src/mpi/eoMpi.h
@@ -710,7 +710,7 @@ namespace eo
                         {
                             timerStat.start("master_wait_for_assignee");
                             int assignee = assignmentAlgo.get( );
-                            while( assignee <= 0 )
+                            while( assignee < 0 )
                             {
                                 eo::log << eo::debug << "[M" << comm.rank() << "] Waitin' for node..." << std::endl;
 
-- 
2.43.0


From 7e59013a3561017a194b64da3c0639e1ca4f4e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:38 +0000
Subject: [PATCH 107/111] fix: size the CMA recombination weights to the
 requested number of parents

---
 eo/src/es/CMAParams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index d27204f..f8dbf8a 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -107,6 +107,8 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
             'w',
             section).value();
 
+    weights.resize(mu);
+
     switch (weight_type) {
         case 1:
             {
-- 
2.43.0


From 83d94e17f863114178963512586e8831c43323ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:38 +0000
Subject: [PATCH 108/111] fix: give CMA weighting scheme 1 equal and scheme 2
 linear weights, as documented

---
 eo/src/es/CMAParams.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index f8dbf8a..c966671 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -110,14 +110,14 @@ CMAParams::CMAParams(eoParser& parser, unsigned dimensionality) {
     weights.resize(mu);
 
     switch (weight_type) {
-        case 1:
+        case 2:
             {
                 for (unsigned i = 0; i < weights.size(); ++i) {
                     weights[i] = mu - i;
                 }
                 break;
             }
-        case 2:
+        case 1:
             {
                 weights = 1.;
                 break;
-- 
2.43.0


From 57cdda8f2279417b692deefcd82f97f5f8e1a617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:38 +0000
Subject: [PATCH 109/111] fix: set the CMA step-size cumulation rate in the
 defaults instead of scaling an unset value

---
 eo/src/es/CMAParams.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/CMAParams.cpp b/eo/src/es/CMAParams.cpp
index c966671..a57ea4b 100644
--- a/eo/src/es/CMAParams.cpp
+++ b/eo/src/es/CMAParams.cpp
@@ -211,7 +211,7 @@ void CMAParams::defaults(unsigned n_, unsigned maxgen_) {
     weights /= sumw;
 
     mucov = mueff;
-    ccumsig *= (mueff + 2.) / (n + mueff + 3.);
+    ccumsig = (mueff + 2.) / (n + mueff + 3.);
     ccumcov = 4. / (n + 4);
 
     double t1 = 2. / ((n+1.4142)*(n+1.4142));
-- 
2.43.0


From beee0a902dda7e99d8039f6004798e73b4336ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:38 +0000
Subject: [PATCH 110/111] fix: compute the expected path length of the adaptive
 normal estimator without integer division

---
 edo/src/edoEstimatorNormalAdaptive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index a19e14b..fa46284 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -147,7 +147,7 @@ public:
         assert( invsqrtC.outerSize() == d.coord_sys().outerSize() );
 
         // expectation of ||N(0,I)|| == norm(randn(N,1))
-        double chiN = sqrt(N)*(1-1/(4*N)+1/(21*pow(N,2)));
+        double chiN = sqrt(N)*(1-1/(4.0*N)+1/(21*pow(N,2)));
 
 
         /**********************************************************************
-- 
2.43.0


From 844c0a3d82c4d2601950428502fda9e7e5ae1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:14 +0000
Subject: [PATCH 111/111] fix: forget the last decomposition when the adaptive
 normal estimator's calls are reset

---
 edo/src/edoEstimatorNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoEstimatorNormalAdaptive.h b/edo/src/edoEstimatorNormalAdaptive.h
index fa46284..9e0358c 100644
--- a/edo/src/edoEstimatorNormalAdaptive.h
+++ b/edo/src/edoEstimatorNormalAdaptive.h
@@ -80,6 +80,7 @@ public:
     void resetCalls()
     {
         _calls = 0;
+        _eigeneval = 0;
     }
 
     // update the distribution reference this->distribution()
-- 
2.43.0

