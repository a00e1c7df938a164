From 33b4f25bdba4cc5616f1024a95f2c766aafc6ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 01/91] fix: GetNURBSData wrote through a null pointer

The NURBS curve and surface entities cleared the local copies of the
output pointers and then dereferenced them, so the data of a defined
curve or surface could never be retrieved.
---
 src/entities/entity126.cpp | 4 ++--
 src/entities/entity128.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 2b93f0e..1350f6e 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -965,8 +965,8 @@ bool IGES_ENTITY_126::GetNURBSData( int& nCoeff, int& order, double** knot,
 {
     nCoeff = 0;
     order =0 ;
-    knot = NULL;
-    coeff = NULL;
+    *knot = NULL;
+    *coeff = NULL;
 
     if( !knots )
         return false;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index dd99085..419b8a6 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -889,9 +889,9 @@ bool IGES_ENTITY_128::GetNURBSData( int& nCoeff1, int& nCoeff2,
     nCoeff2 = 0;
     order1 = 0 ;
     order2 = 0 ;
-    knot1 = NULL;
-    knot2 = NULL;
-    coeff = NULL;
+    *knot1 = NULL;
+    *knot2 = NULL;
+    *coeff = NULL;
 
     if( !knots1 )
         return false;
-- 
2.43.0


From b599aca92d4899b1af65d93dde686b502169172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 02/91] fix: a rejected SetNURBSData left sizes that did not
 match the data held

The counts were overwritten before the parameter range was validated, so
a later write or rescale ran past the knot and coefficient arrays.  The
freed SISL curve was also left dangling and freed twice.
---
 src/entities/entity126.cpp | 17 +++++++++++------
 src/entities/entity128.cpp | 27 +++++++++++++++------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 1350f6e..804ed8f 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1002,7 +1002,10 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
 {
 #ifdef USE_SISL
     if( NULL != scurve )
+    {
         freeCurve( scurve );
+        scurve = NULL;
+    }
 #endif
 
     if( !knot || !coeff )
@@ -1027,24 +1030,26 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots = nCoeff + order;
-    nCoeffs = nCoeff;
-    K = nCoeff - 1;
-    M = order - 1;
+    int nK = nCoeff + order;
 
     // ensure V0, V1 are within the knot range
-    if( v0 < knot[0] || v0 >= knot[nKnots -1] )
+    if( v0 < knot[0] || v0 >= knot[nK -1] )
     {
         ERRMSG << "\n + [INFO] v0 does not satisfy the requirement T(-M) <= v0 < T(N+M)\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot[nKnots -1] )
+    if( v1 <= v0 || v1 > knot[nK -1] )
     {
         ERRMSG << "\n + [INFO] v1 does not satisfy the requirement v0 < v1 <= T(N+M)\n";
         return false;
     }
 
+    nKnots = nK;
+    nCoeffs = nCoeff;
+    K = nCoeff - 1;
+    M = order - 1;
+
     if( knots )
     {
         delete [] knots;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 419b8a6..4600520 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -976,40 +976,43 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     // # of knots = 2 + K + M
     // # of coefficients = K + 1
 
-    nKnots1 = nCoeff1 + order1;
-    nKnots2 = nCoeff2 + order2;
-    nCoeffs1 = nCoeff1;
-    nCoeffs2 = nCoeff2;
-    K1 = nCoeff1 - 1;
-    K2 = nCoeff2 - 1;
-    M1 = order1 - 1;
-    M2 = order2 - 1;
+    int nK1 = nCoeff1 + order1;
+    int nK2 = nCoeff2 + order2;
 
     // check validity of (u, v)
-    if( u0 < knot1[0] || u0 >= knot1[nKnots1 -1] )
+    if( u0 < knot1[0] || u0 >= knot1[nK1 -1] )
     {
         ERRMSG << "\n + [INFO] u0 is invalid\n";
         return false;
     }
 
-    if( u1 <= u0 || u1 > knot1[nKnots1 -1] )
+    if( u1 <= u0 || u1 > knot1[nK1 -1] )
     {
         ERRMSG << "\n + [INFO] u1 is invalid\n";
         return false;
     }
 
-    if( v0 < knot2[0] || v0 >= knot2[nKnots2 -1] )
+    if( v0 < knot2[0] || v0 >= knot2[nK2 -1] )
     {
         ERRMSG << "\n + [INFO] v0 is invalid\n";
         return false;
     }
 
-    if( v1 <= v0 || v1 > knot2[nKnots2 -1] )
+    if( v1 <= v0 || v1 > knot2[nK2 -1] )
     {
         ERRMSG << "\n + [INFO] v1 is invalid\n";
         return false;
     }
 
+    nKnots1 = nK1;
+    nKnots2 = nK2;
+    nCoeffs1 = nCoeff1;
+    nCoeffs2 = nCoeff2;
+    K1 = nCoeff1 - 1;
+    K2 = nCoeff2 - 1;
+    M1 = order1 - 1;
+    M2 = order2 - 1;
+
     if( knots1 )
     {
         delete [] knots1;
-- 
2.43.0


From cd8b4b88a9cb419a1dd44e3c47cddbe03234cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 03/91] fix: a Boolean Tree's operand pointers were rejected
 when read back

Directory entry numbers are odd; the check accepted only even ones.
---
 src/entities/entity180.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 330ede9..97fb86f 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -444,7 +444,7 @@ bool IGES_ENTITY_180::readPD(std::ifstream &aFile, int &aSequenceVar)
         }
 
         if( ent == 0 || ent > 3 || ent < -9999997
-            || ( ent < 0 && (ent & 1) ) )
+            || ( ent < 0 && !(ent & 1) ) )
         {
             ERRMSG << "\n + [INFO] invalid value (" << ent << ")\n";
             pdout.clear();
-- 
2.43.0


From db80f291b4feb1c3e345e43d2a262a06898d2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 04/91] fix: writing a Loop lost the last parameter space curve
 or crashed without any

---
 src/entities/entity508.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index 6eacf44..c947580 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -284,7 +284,7 @@ bool IGES_ENTITY_508::format( int &index )
         // K(n)
         ostr.str("");
 
-        if( sV == iV && extras.empty() )
+        if( sV == iV && (*sV)->pcurves.empty() && extras.empty() )
             ostr << (*sV)->pcurves.size() << rd;
         else
             ostr << (*sV)->pcurves.size() << pd;
@@ -294,7 +294,7 @@ bool IGES_ENTITY_508::format( int &index )
 
         // write out PS curve data
         vector< LOOP_PAIR* >::iterator sP = (*sV)->pcurves.begin();
-        vector< LOOP_PAIR* >::iterator eP = --((*sV)->pcurves.end());
+        vector< LOOP_PAIR* >::iterator eP = (*sV)->pcurves.end();
 
         while( sP != eP )
         {
@@ -312,7 +312,7 @@ bool IGES_ENTITY_508::format( int &index )
             // CURV(n, k)
             ostr.str("");
 
-            if( sV == iV && sP == eP && extras.empty() )
+            if( sV == iV && (sP + 1) == eP && extras.empty() )
                 ostr << (*sP)->curve->getDESequence() << rd;
             else
                 ostr << (*sP)->curve->getDESequence() << pd;
-- 
2.43.0


From 14d44ed11263f90a5ae6d776a182c4412ac20a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 05/91] fix: the number of voids of a solid was not written
 when there are any

---
 src/entities/entity186.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index 1b64322..e6390bb 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -216,18 +216,15 @@ bool IGES_ENTITY_186::format( int &index )
     string fStr = ostr.str();
     string tStr;
 
-    if( mvoids.empty() )
-    {
-        ostr.str("");
+    ostr.str("");
 
-        if( extras.empty() )
-            ostr << "0" << rd;
-        else
-            ostr << "0" << pd;
+    if( mvoids.empty() && extras.empty() )
+        ostr << mvoids.size() << rd;
+    else
+        ostr << mvoids.size() << pd;
 
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
-    }
+    tStr = ostr.str();
+    AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
 
     list<pair<IGES_ENTITY_514*, bool> >::iterator sV = mvoids.begin();
     list<pair<IGES_ENTITY_514*, bool> >::iterator eV = mvoids.end();
-- 
2.43.0


From ac1b3b0d7051af1f0bad207a564b32a12092f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 06/91] fix: a Loop left dangling references to and from its
 edges and curves

Destroying a Loop did not withdraw its references, and unlinking an edge or
curve removed the wrong tuples and used freed memory.
---
 src/entities/entity508.cpp | 108 +++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 58 deletions(-)

diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index c947580..f44217f 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -100,7 +100,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
         while( sP != eP )
         {
-            (*sP)->curve->unlink(this);
+            (*sP)->curve->delReference(this);
             delete *sP;
             ++sP;
         }
@@ -117,7 +117,7 @@ IGES_ENTITY_508::~IGES_ENTITY_508()
 
     while( sE != eE )
     {
-        sE->first->unlink(this);
+        sE->first->delReference(this);
         ++sE;
     }
 
@@ -748,59 +748,48 @@ bool IGES_ENTITY_508::addEdge( IGES_ENTITY* aEdge )
 // PCurves should be released
 bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnlink )
 {
-    bool ok = false;    // flag indicates true if the entity has been matched
-
     list<pair<IGES_ENTITY*, int> >::iterator sE = redges.begin();
     list<pair<IGES_ENTITY*, int> >::iterator eE = redges.end();
 
-    while( sE != eE )
-    {
-        IGES_ENTITY* ep = sE->first;
+    while( sE != eE && sE->first != aEdge )
+        ++sE;
 
-        if( aEdge == ep )
-        {
-            ok = true;
+    if( sE == eE )
+        return false;
 
-            if( !aFlagUnlink )
-                ep->delReference(this);
+    if( !aFlagAll && --sE->second > 0 )
+        return true;
 
-            if( aFlagAll || (--sE->second == 0) )
-            {
-                vector< LOOP_DATA* >::reverse_iterator sF = edges.rbegin();
-                vector< LOOP_DATA* >::reverse_iterator eF = edges.rend();
+    // the last reference is deleted; delete all tuples which refer to the edge
+    vector< LOOP_DATA* >::iterator sF = edges.begin();
 
-                while( sF != eF )
-                {
-                    if( (*sF)->data == ep )
-                    {
-                        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-                        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
-
-                        while( sP != eP )
-                        {
-                            delPCurve( (*sP)->curve, false, false );
-                            delete *sP;
-                            ++sP;
-                        }
-
-                        delete *sF;
-                        --sF;
-                        edges.pop_back();
-                        continue;
-                    }
+    while( sF != edges.end() )
+    {
+        LOOP_DATA* lp = *sF;
 
-                    ++sF;
-                }
+        if( lp->data != aEdge )
+        {
+            ++sF;
+            continue;
+        }
 
-                sE = redges.erase( sE );
-                continue;
-            }   // deleted last reference
-        }   // found entity to delete
+        while( !lp->pcurves.empty() )
+        {
+            lp->pcurves.back()->curve->delReference(this);
+            delete lp->pcurves.back();
+            lp->pcurves.pop_back();
+        }
 
-        ++sE;
-    }   // searched list of entities
+        delete lp;
+        sF = edges.erase( sF );
+    }
+
+    redges.erase( sE );
 
-    return ok;
+    if( !aFlagUnlink )
+        aEdge->delReference(this);
+
+    return true;
 }
 
 
@@ -858,30 +847,33 @@ bool IGES_ENTITY_508::delPCurve( IGES_ENTITY* aCurve, bool aFlagDelEdge, bool aF
 
     while( sF != eF )
     {
-        vector< LOOP_PAIR* >::reverse_iterator sP = (*sF)->pcurves.rbegin();
-        vector< LOOP_PAIR* >::reverse_iterator eP = (*sF)->pcurves.rend();
+        vector< LOOP_PAIR* >::iterator sP = (*sF)->pcurves.begin();
+        vector< LOOP_PAIR* >::iterator eP = (*sF)->pcurves.end();
 
         while( sP != eP )
         {
             if( (*sP)->curve == aCurve )
             {
+                if( !aFlagUnlink )
+                    aCurve->delReference(this);
+
+                delete *sP;
+                (*sF)->pcurves.erase( sP );
+
                 if( aFlagDelEdge )
                 {
-                    while( !(*sF)->pcurves.empty() )
+                    LOOP_DATA* lp = *sF;
+                    edges.erase( sF );
+
+                    while( !lp->pcurves.empty() )
                     {
-                        (*sF)->pcurves.back()->curve->delReference(this);
-                        (*sF)->pcurves.pop_back();
+                        lp->pcurves.back()->curve->delReference(this);
+                        delete lp->pcurves.back();
+                        lp->pcurves.pop_back();
                     }
 
-                    delEdge( (*sF)->data, false, false );
-                }
-                else
-                {
-                    if( !aFlagUnlink )
-                        (*sP)->curve->delReference(this);
-
-                    delete *sP;
-                    (*sF)->pcurves.pop_back();
+                    delEdge( lp->data, false, false );
+                    delete lp;
                 }
 
                 return true;
-- 
2.43.0


From 0f077ad51279a1275c3067bc9106033c7f18dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 07/91] fix: destroying an entity used a list iterator its
 parent had invalidated

---
 src/entities/iges_entity.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e05c449..008135e 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -130,18 +130,15 @@ IGES_ENTITY::~IGES_ENTITY()
 
     if( !refs.empty() )
     {
-        std::list<IGES_ENTITY*>::iterator rbeg = refs.begin();
-        std::list<IGES_ENTITY*>::iterator rend = refs.end();
-
-        while( rbeg != rend )
+        // note: unlink() may withdraw references from this entity
+        while( !refs.empty() )
         {
-            if( !(*rbeg)->unlink(this) )
-                ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
+            IGES_ENTITY* rp = refs.front();
+            refs.pop_front();
 
-            ++rbeg;
+            if( !rp->unlink(this) )
+                ERRMSG << "\n + [BUG] could not unlink a parent entity\n";
         }
-
-        refs.clear();
     }
 
     if( !extras.empty() )
-- 
2.43.0


From 048265a16f430389f268c406cb2cc556c759b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 08/91] fix: deleting one operand left the others referring to
 the Boolean Tree

The remaining nodes were dropped without withdrawing their references, so the
operands kept a pointer to the tree after it was destroyed.
---
 src/entities/entity180.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 97fb86f..7c81d6e 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -313,6 +313,7 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
         if( aChildEntity == ip )
         {
             clear_all = true;
+            delete *rbeg;
             nodes.erase( rbeg );
             break;
         }
@@ -321,9 +322,9 @@ bool IGES_ENTITY_180::unlink(IGES_ENTITY *aChildEntity)
     }
 
     if( clear_all )
-        nodes.clear();
+        ClearNodes();
 
-    return true;
+    return clear_all;
 }
 
 
-- 
2.43.0


From ba7609883c92bb36a2fb9dc421241948d6a39f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 09/91] fix: a Face did not register as a parent of its surface
 and loops

Deleting the surface or a loop left the face with a dangling pointer.
---
 src/entities/entity510.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 8d293c9..818f20f 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -546,10 +546,21 @@ bool IGES_ENTITY_510::AddBound( IGES_ENTITY_508* aLoop )
     if( NULL == aLoop )
         return false;
 
-    // XXX - TO BE IMPLEMENTED:
-    // we may require refcounts for the bound though in principle
-    // it should not be necessary to use a boundary more than
-    // once
+    // note: it should not be necessary to use a boundary more than once
+    bool dup = false;
+
+    if( !aLoop->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to loop\n";
+        return false;
+    }
+
+    if( dup )
+    {
+        ERRMSG << "\n + [BUG] duplicate reference to loop\n";
+        return false;
+    }
+
     mloops.push_back( aLoop );
 
     if( NULL != parent && parent != aLoop->GetParentIGES() )
@@ -564,6 +575,23 @@ bool IGES_ENTITY_510::SetSurface( IGES_ENTITY* aSurface )
     if( NULL == aSurface )
         return false;
 
+    if( aSurface == msurface )
+        return true;
+
+    if( !checkSurfType( aSurface ) )
+        return false;
+
+    bool dup = false;
+
+    if( !aSurface->addReference( this, dup ) )
+    {
+        ERRMSG << "\n + [INFO] could not add reference to surface entity\n";
+        return false;
+    }
+
+    if( msurface )
+        msurface->delReference( this );
+
     msurface = aSurface;
 
     if( NULL != parent && parent != aSurface->GetParentIGES() )
-- 
2.43.0


From b4bec9461e82fa829d93a72471c2162921b0d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 10/91] fix: the colour entity and label associativity of an
 entity were never returned

The getters tested the sign of a number which the setters leave at zero.
---
 src/entities/iges_entity.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 008135e..7744f7f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2258,15 +2258,8 @@ bool IGES_ENTITY::GetLabelAssoc(IGES_ENTITY** aLabelAssoc)
 {
     *aLabelAssoc = NULL;
 
-    if( 0 == (labelAssoc & 0x80000000) )
-        return true;
-
     if( !pLabelAssoc )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid Label Association pointer in entity type #";
-        cerr << entityType << "\n";
-        return false;
-    }
+        return true;
 
     *aLabelAssoc = pLabelAssoc;
     return true;
@@ -2323,7 +2316,7 @@ bool IGES_ENTITY::SetLabelAssoc( IGES_ENTITY* aLabelAssoc )
 
 bool IGES_ENTITY::GetColor(IGES_COLOR& aColor)
 {
-    if( colorNum & 0x80000000 )
+    if( pColor )
     {
         aColor = COLOR_NONE;
         return false;
@@ -2338,20 +2331,12 @@ bool IGES_ENTITY::GetColorEntity(IGES_ENTITY** aColor)
 {
     *aColor = NULL;
 
-    if( 0 == (colorNum & 0x80000000) )
+    if( pColor == NULL )
     {
         if( 0 == colorNum )
             return true;
         else
             return false;
-
-    }
-
-    if( pColor == NULL )
-    {
-        ERRMSG << "\n + [BAD DATA] invalid color entity in entity type #";
-        cerr << entityType << "\n";
-        return false;
     }
 
     *aColor = pColor;
-- 
2.43.0


From e5d9456d0f65e17dd6e1e1d747c48015742cacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 11/91] fix: SetView rejected every entity

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 7744f7f..19c32f0 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2153,7 +2153,7 @@ bool IGES_ENTITY::SetView( IGES_ENTITY* aView )
     int tEnt = aView->GetEntityType();
     int tFrm = aView->GetEntityForm();
 
-    if( tEnt != ENT_VIEW || tEnt != ENT_ASSOCIATIVITY_INSTANCE
+    if( (tEnt != ENT_VIEW && tEnt != ENT_ASSOCIATIVITY_INSTANCE)
         || (tEnt == ENT_ASSOCIATIVITY_INSTANCE && tFrm != 3 && tFrm != 4 && tFrm != 19) )
     {
         ERRMSG << "\n + [BUG] invalid entity (" << tEnt << "-" << tFrm;
-- 
2.43.0


From de6099852cd475d7df1dfa9cc86fea51cb8cd693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 12/91] fix: SetLevel accepted numbers that do not fit the
 directory field

A model with such a level could not be written.
---
 src/entities/iges_entity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 19c32f0..713f5f5 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2063,9 +2063,9 @@ bool IGES_ENTITY::SetLevel( int aLevel )
         pLevel = NULL;
     }
 
-    if( aLevel < 0 )
+    if( aLevel < 0 || aLevel > 99999999 )
     {
-        ERRMSG << "\n + [BUG] method invoked with invalid level (< 0) in entity type #";
+        ERRMSG << "\n + [BUG] method invoked with invalid level (< 0 or > 99999999) in entity type #";
         cerr << entityType << "\n";
         return false;
     }
-- 
2.43.0


From 40b1ac17c3bb978559c159b4c19728fd53b3fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 13/91] fix: a Transformation Matrix accepted every form number

Negative or long form numbers could be set but not written or read back.
---
 src/entities/entity124.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6a75fba..6047744 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -289,7 +289,7 @@ bool IGES_ENTITY_124::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     visible = true;                 // N.A., but true => Blank Status = 0
     hierarchy = STAT_HIER_ALL_SUB;  // field ignored
 
-    if( form != 0 && form != 1 && form < 10 && form > 12 )
+    if( form != 0 && form != 1 && (form < 10 || form > 12) )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Transform\n";
         cerr << " + DE: " << aRecord->index << "\n";
@@ -371,7 +371,7 @@ bool IGES_ENTITY_124::readPD(std::ifstream &aFile, int &aSequenceVar)
 
 bool IGES_ENTITY_124::SetEntityForm( int aForm )
 {
-    if( aForm != 0 && aForm != 1 && aForm < 10 && aForm > 12 )
+    if( aForm != 0 && aForm != 1 && (aForm < 10 || aForm > 12) )
     {
         ERRMSG << "\n + [BUG] invalid Form Number (" << aForm << ") specified\n";
         return false;
-- 
2.43.0


From 41b05bef2ec66a6797cb3ac2f447f02e8ff50be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:25 +0000
Subject: [PATCH 14/91] fix: a Shell of form 2 (open shell) could be written
 but not read back

---
 src/entities/entity514.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 273f5c1..06df0f0 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -298,7 +298,7 @@ bool IGES_ENTITY_514::readDE(IGES_RECORD *aRecord, std::ifstream &aFile, int &aS
     lineWeightNum = 0;              // N.A.
     colorNum = 0;                   // N.A.
 
-    if( form != 1 )
+    if( form != 1 && form != 2 )
     {
         ERRMSG << "\n + [CORRUPT FILE] invalid Form Number in Shell\n";
         cerr << " + DE: " << aRecord->index << "\n";
-- 
2.43.0


From cab814f3132a51d1030e939972b1bf841e4e14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:57 +0000
Subject: [PATCH 15/91] fix: deleting a Vertex List called a virtual function
 of the destroyed list

---
 src/entities/entity504.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index b4343d7..df18ecc 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -787,7 +787,10 @@ bool IGES_ENTITY_504::delVertexList( IGES_ENTITY_502* aVertexList, bool aFlagAll
 
             if( aFlagAll || 0 == sV->second )
             {
-                sV->first->delReference(this);
+                // note: when aFlagAll is set the list is being destroyed
+                if( !aFlagAll )
+                    sV->first->delReference(this);
+
                 vertices.erase( sV );
             }
 
-- 
2.43.0


From 54c0d3fd71f451ef9b49b256a8561200cc922887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 16/91] fix: a new Subfigure Definition reported the wrong
 entity use

---
 src/entities/entity308.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index bb80639..d17717f 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -39,6 +39,7 @@ IGES_ENTITY_308::IGES_ENTITY_308( IGES* aParent ) : IGES_ENTITY( aParent )
 {
     entityType = 308;
     form = 0;
+    use = STAT_USE_DEFINITION;      // fixed
 
     N = 0;
     DEPTH = 0;
-- 
2.43.0


From e6d306e6b02880ba67f7af995d5e5b9756af75b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 17/91] fix: a huge Hollerith string length made the parser
 read outside the record

---
 src/iges/iges_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 8a53908..4da1a4d 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -251,7 +251,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
     if( errno || cp == rp )
     {
@@ -278,7 +278,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
         return false;
     }
 
-    if( idx + i >= (int)data.length() )
+    if( i >= (long)data.length() - idx )
     {
         ERRMSG << "\n + [BAD DATA]: invalid Hollerith string length (" << i << ")\n";
         cerr << " + requested string length exceeds record length\n";
@@ -288,7 +288,7 @@ bool ParseHString( const std::string& data, int& idx, std::string& param, bool&
 
     param = data.substr(idx, i);
 
-    idx += i;
+    idx += (int)i;
 
     if( data[idx] == rd )
     {
-- 
2.43.0


From 0eec043b50b35c67170498635f90558b07fe968f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 18/91] fix: an integer too large for an int was read as a
 different number

---
 src/iges/iges_io.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 4da1a4d..75b1943 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -32,6 +32,7 @@
 #include <sstream>
 #include <string>
 #include <cmath>
+#include <climits>
 
 #include <error_macros.h>
 #include <core/iges_io.h>
@@ -396,9 +397,9 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
     char* rp;
 
     errno = 0;
-    int i = strtol( cp, &rp, 10 );
+    long i = strtol( cp, &rp, 10 );
 
-    if( errno || cp == rp )
+    if( errno || cp == rp || i > INT_MAX || i < INT_MIN )
     {
         ERRMSG << "\n + [BAD DATA]: invalid integer\n";
         cerr << "Data: " << data.substr(tidx) << "\n";
@@ -412,7 +413,7 @@ bool ParseInt( const std::string& data, int& idx, int& param, bool& eor, char pd
         cerr << "Data: " << data.substr(tidx) << "\n";
     }
 
-    param = i;
+    param = (int)i;
     return true;
 }
 
-- 
2.43.0


From ecc5e06c2eecce6bd966b9ffc1570991a8f9429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 19/91] fix: numbers below 1e-8 were written as zero whatever
 the resolution

---
 src/iges/iges_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges_io.cpp b/src/iges/iges_io.cpp
index 75b1943..e46b845 100644
--- a/src/iges/iges_io.cpp
+++ b/src/iges/iges_io.cpp
@@ -519,7 +519,7 @@ bool FormatPDREal( std::string &tStr, double var, char delim, double minRes )
     if( ne < 0.0 )
         ne = -ne;
 
-    if( ne < 1e-8 )
+    if( ne < 1e-8 && ne < minRes )
     {
         ne = 1.0;
         var = 0.0;
-- 
2.43.0


From 2af70d5a14d94db2b98c8bdaaad670cd36435924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 20/91] fix: the number of line weights was written as the
 maximum line width

---
 src/iges/iges.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a827b72..080e95e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2224,10 +2224,12 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 17: (Real) Max. Width of Lines
     // REQ NODEF ( use 1.0 if none specified )
-    if( globalData.maxLinewidth < 1e-6 )
-        globalData.maxLinewidthGrad = 1;
+    double maxLW = globalData.maxLinewidth;
+
+    if( maxLW < 1e-6 )
+        maxLW = 1.0;
 
-    if( !FormatPDREal( tstr, globalData.maxLinewidthGrad, pd, globalData.minResolution ) )
+    if( !FormatPDREal( tstr, maxLW, pd, globalData.minResolution ) )
     {
         ERRMSG << "\n + [INFO] failed to format Max. Linewidth\n";
         return false;
-- 
2.43.0


From 872bfd2b521aaba89ee2ce8e16fad9eb1ccaece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 21/91] fix: the name of a user-specified unit was lost and the
 unit taken for millimetres

---
 src/iges/iges.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 080e95e..a9ba86b 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1533,7 +1533,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.convert = true;
     }
 
-    if( globalData.unitsFlag != UNIT_MILLIMETER )
+    // note: there is no way to convert from user-specified units
+    if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
@@ -2201,7 +2202,18 @@ bool IGES::writeGlobals( std::ofstream& file )
 
     // Item 15: (HStr) Units Name
     // REQ DEF : UNIT_NAMES[Unit Flag]
-    if( !AddSecHStr( UNIT_NAMES[globalData.unitsFlag - UNIT_START], lstr, gstr, idx, pd, rd, pd ) )
+    if( globalData.unitsFlag == UNIT_EXTERN )
+        tstr = globalData.unitsName;
+    else
+        tstr = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
+
+    if( tstr.empty() )
+    {
+        ERRMSG << "\n + [INFO] no Unit Name provided for UNIT_EXTERN\n";
+        return false;
+    }
+
+    if( !AddSecHStr( tstr, lstr, gstr, idx, pd, rd, pd ) )
     {
         ERRMSG << "\n + [INFO] failed to add Units Name\n";
         return false;
-- 
2.43.0


From 2ac0778abdbb4332da1a9f15621c291aae2da9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 22/91] fix: a record delimiter other than ; was rejected or
 not validated

---
 src/iges/iges.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a9ba86b..d1d849c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1094,7 +1094,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G2: record delimeter: REQUIRED DEFAULT ';'
     if( globs[idx] != delim )
     {
-        if( globs.compare(0, 2, "1H") )
+        if( globs.compare(idx, 2, "1H") )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
@@ -1102,12 +1102,12 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
 
         rdelim = globs[idx + 2];
 
-        if( delim <= 0x20 || delim >= 0x7f || delim == ';'
-            || delim == 0x2b || delim == 0x2d || delim == 0x2e
-            || delim == 'D' || delim == 'E' || delim == 'H'
-        || ( delim >= 0x30 && delim <= 0x39 ) )
+        if( rdelim <= 0x20 || rdelim >= 0x7f || rdelim == delim
+            || rdelim == 0x2b || rdelim == 0x2d || rdelim == 0x2e
+            || rdelim == 'D' || rdelim == 'E' || rdelim == 'H'
+            || ( rdelim >= 0x30 && rdelim <= 0x39 ) )
         {
-            ERRMSG << "\n + [CORRUPT FILE] invalid parameter delimeter\n";
+            ERRMSG << "\n + [CORRUPT FILE] invalid record delimeter\n";
             return false;
         }
 
-- 
2.43.0


From 46cc868bae3863cca77b6676936a5d04c28107ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 23/91] fix: an empty receiving system ID did not default to
 the sending system

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d1d849c..66aed2c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1179,7 +1179,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     }
     else
     {
-        if( globalData.nativeSystemID.empty() )
+        if( globalData.preprocessorVersion.empty() )
         {
             ERRMSG << "\n + [CORRUPT FILE] no Preprocessor Version (defaults not permitted)\n";
             return false;
@@ -1280,7 +1280,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve ProductID of Receiving System\n";
         return false;
     }
-    else if( globalData.productIDSS.empty() )
+    else if( globalData.productIDRS.empty() )
     {
         globalData.productIDRS = globalData.productIDSS;
     }
-- 
2.43.0


From 5da3774be366cb5cd147447b1d7178c7c00780be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 24/91] fix: a file without a modification date was rejected

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 66aed2c..39a3b67 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1497,7 +1497,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             return false;
         }
 
-        if( !checkDate( globalData.modificationDate ) )
+        if( !globalData.modificationDate.empty() && !checkDate( globalData.modificationDate ) )
         {
             ERRMSG << "\n + [CORRUPT FILE] invalid modification date '";
             cerr << globalData.modificationDate << "'\n";
-- 
2.43.0


From 9a8b359a9fb4f137b20409fc30b3b527a45acabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 25/91] fix: a file without an application note was not
 converted to millimetres

---
 src/iges/iges.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 39a3b67..3e947de 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1509,10 +1509,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     if( eor )
     {
         globalData.applicationNote.clear();
-        return true;
     }
-
-    if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
+    else if( !ParseHString( globs, idx, globalData.applicationNote, eor, delim, rdelim ) )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve AP / Subset Identifier string\n";
         return false;
-- 
2.43.0


From 17247906a2c6dac0ab0e3bff600f2d675a61380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 26/91] fix: the unit name did not match the unit

---
 src/iges/iges.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 3e947de..f93cc64 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1537,6 +1537,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
         globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
+        globalData.unitsName = UNIT_NAMES[UNIT_MILLIMETER - UNIT_START];
         globalData.convert = true;
     }
 
@@ -1821,6 +1822,7 @@ bool IGES::ConvertUnits( IGES_UNIT newUnit )
     }
 
     globalData.unitsFlag = newUnit;
+    globalData.unitsName = UNIT_NAMES[newUnit - UNIT_START];
 
     return true;
 }
@@ -2674,5 +2676,8 @@ void IGES::GetNewAssemblyName( std::string& name )
 
 const char* IGES::GetUnitName( void )
 {
-    return UNIT_NAMES[globalData.unitsFlag].c_str();
+    if( globalData.unitsFlag == UNIT_EXTERN )
+        return globalData.unitsName.c_str();
+
+    return UNIT_NAMES[globalData.unitsFlag - UNIT_START].c_str();
 }
-- 
2.43.0


From d43d9e6980bb603b9c0268573d8bd1edfdaa2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 27/91] fix: the date check read outside its table and did not
 check seconds

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f93cc64..a57c0a1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -196,7 +196,7 @@ static bool checkDate( const std::string aDate )
     if( errno || cp1 == cp0 || (cp1 - cp0) != 2 )
         ok = false;
 
-    if( iday < 1 || iday > mdays[imon -1] )
+    if( !ok || iday < 1 || iday > mdays[imon -1] )
         ok = false;
 
     errno = 0;
@@ -227,7 +227,7 @@ static bool checkDate( const std::string aDate )
         ok = false;
 
     // note: using '60' ensures we allow leap seconds
-    if( isec < 0 || imin > 60 )
+    if( isec < 0 || isec > 60 )
         ok = false;
 
     return ok;
-- 
2.43.0


From d6b9412c1ba499375cd0c36fad3295797739b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 28/91] fix: changing the model scale scaled the resolution by
 the wrong factor

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index a57c0a1..8c82603 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1843,7 +1843,7 @@ bool IGES::ChangeModelScale( double aScale )
     }
 
     double cf = aScale / globalData.modelScale;
-    globalData.minResolution *= aScale;
+    globalData.minResolution *= cf;
     globalData.modelScale = aScale;
 
     // scale all existing entities
-- 
2.43.0


From 141e335368fb2da051a72509e73a6306f0445782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 29/91] fix: a header line of exactly 72 characters was dropped

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8c82603..760595f 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1914,7 +1914,7 @@ bool IGES::AddToHeader( const char*& comments )
         tStr.append( 72 - slen, ' ' );
         startSection.push_back( tStr );
     }
-    else if( slen > 72 )
+    else
     {
         for( size_t i = 0; i < slen; i += 72 )
         {
-- 
2.43.0


From 60e2cfe9283ca0defc0d6b696ee817cda02c5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 30/91] fix: comments which cannot be stored in a file were
 accepted

---
 src/entities/iges_entity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 713f5f5..5341d70 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2979,6 +2979,13 @@ bool IGES_ENTITY::AddComment( const std::string& aComment )
     if( aComment.empty() )
     {
         ERRMSG << "\n + [INFO] empty comment string\n";
+        return false;
+    }
+
+    if( aComment.find_first_of( "\r\n" ) != std::string::npos )
+    {
+        ERRMSG << "\n + [INFO] comment string contains a line break\n";
+        return false;
     }
 
     comments.push_back( aComment );
-- 
2.43.0


From caef29d777edc720128dcd133250d9cd0280cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 31/91] fix: header text with line breaks produced an
 unreadable file

---
 src/iges/iges.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 760595f..845a64e 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1901,9 +1901,15 @@ bool IGES::AddToHeader( const char*& comments )
     if( 0 == comments[0] )
         return true;
 
-    vStartSection.clear();
-
     std::string tStr = comments;
+
+    if( tStr.find_first_of( "\r\n" ) != std::string::npos )
+    {
+        ERRMSG << "\n + [INFO] header text contains a line break\n";
+        return false;
+    }
+
+    vStartSection.clear();
     std::string tStr1;
 
     size_t slen = tStr.length();
-- 
2.43.0


From 64dfc4400174f10e3c40aa3695f5f7dced96e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 32/91] fix: the number of header lines was not returned and
 stale lines could be

---
 src/iges/iges.cpp       | 21 ++++++++++-----------
 src/include/core/iges.h |  2 +-
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 845a64e..dcdb567 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1862,7 +1862,7 @@ bool IGES::ChangeModelScale( double aScale )
 }
 
 
-bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
+bool IGES::GetHeaders( size_t& aListSize, char const**& aHeaderList )
 {
     if( startSection.empty() )
     {
@@ -1871,17 +1871,16 @@ bool IGES::GetHeaders( size_t aListSize, char const**& aHeaderList )
         return false;
     }
 
-    if( vStartSection.size() != startSection.size() )
-    {
-        vStartSection.clear();
-        std::list<std::string>::iterator sL = startSection.begin();
-        std::list<std::string>::iterator eL = startSection.end();
+    // note: the strings may have been replaced or reallocated
+    // since the list was last retrieved
+    vStartSection.clear();
+    std::list<std::string>::iterator sL = startSection.begin();
+    std::list<std::string>::iterator eL = startSection.end();
 
-        while( sL != eL )
-        {
-            vStartSection.push_back( sL->c_str() );
-            ++sL;
-        }
+    while( sL != eL )
+    {
+        vStartSection.push_back( sL->c_str() );
+        ++sL;
     }
 
     aListSize = vStartSection.size();
diff --git a/src/include/core/iges.h b/src/include/core/iges.h
index df9ca75..b9f6a12 100644
--- a/src/include/core/iges.h
+++ b/src/include/core/iges.h
@@ -299,7 +299,7 @@ public:
      * returns a pointer to the list of strings read from or to be
      * written to the Start Section of the IGES file.
      */
-    bool GetHeaders( size_t aListSize, char const**& aHeaderList );
+    bool GetHeaders( size_t& aListSize, char const**& aHeaderList );
 
 
     /**
-- 
2.43.0


From f614371b4e31c974cdcfd0f70a7a5dc9d67bc70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 33/91] fix: reading a file into a used model with no entities
 failed

---
 src/iges/iges.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index dcdb567..1d778e1 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -436,6 +436,16 @@ bool IGES::Read( const char* aFileName )
         return false;
     }
 
+    // discard any headers or line counts of a previous model
+    startSection.clear();
+    nGlobSecLines = 0;
+    nDESecLines = 0;
+    nPDSecLines = 0;
+    globalData.cf = 1.0;
+    globalData.convert = false;
+    globalData.pdelim = ',';
+    globalData.rdelim = ';';
+
     ifstream file;
 
     file.open( aFileName, ios::in | ios::binary );
-- 
2.43.0


From 91bd6ac8db36aaed53628494ca1b9d6694e40b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 34/91] fix: a read which failed to associate entities left
 them in the model

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 1d778e1..d7c6afa 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -619,6 +619,8 @@ bool IGES::Read( const char* aFileName )
         if( !entities[iEnt]->associate(&entities) )
         {
             ERRMSG << "\n + [INFO] could not establish file associations\n";
+            file.close();
+            Clear();
             return false;
         }
     }
-- 
2.43.0


From 892cdbc7539e7ccde54e93d3503036e6d65e18d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 35/91] fix: formatted text was kept after a failed write

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index d7c6afa..9aa891d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -673,7 +673,7 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
             ERRMSG << "\n + [INFO] could not format entity for output\n";
 
             for( nEnt = 0; nEnt < iEnt; ++nEnt )
-                entities[iEnt]->unformat();
+                entities[nEnt]->unformat();
 
             return false;
         }
-- 
2.43.0


From f68031a2811c842ad63f104776aac2d7386e7363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 36/91] fix: a write which failed when closing the file was
 reported as success

---
 src/iges/iges.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 9aa891d..1aa26f8 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -829,6 +829,15 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
     }
 
     file.close();
+
+    // note: data may still have been in a buffer prior to closing the file
+    if( file.fail() )
+    {
+        ERRMSG << "\n + [INFO] could not write file\n";
+        cerr << " + filename: '" << aFileName << "'\n";
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 0bc4db2dcb30c369d91a095ea344cc1b763e6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 37/91] fix: an existing file which cannot be read was
 overwritten unasked

---
 src/iges/iges.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 1aa26f8..42269aa 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -683,21 +683,27 @@ bool IGES::Write( const char* aFileName, bool fOverwrite )
 
     ofstream file;
 
+    errno = 0;
     file.open( aFileName, ios::out | ios_base::in | ios::binary );
 
-    if( file.is_open() )
+    // note: a file which exists might not be readable
+    if( file.is_open() || ( !fOverwrite && errno != ENOENT ) )
     {
         if( !fOverwrite )
         {
             ERRMSG << "\n + [INFO] file already exists; not overwriting\n";
             cerr << " + filename: '" << aFileName << "'\n";
             file.close();
+
+            for( iEnt = 0; iEnt < nEnt; ++iEnt )
+                entities[iEnt]->unformat();
+
             return false;
         }
 
         // reopen the file and truncate it
         file.close();
-        file.open( aFileName, ios::out | ios_base::in | ios::binary | ios::trunc );
+        file.open( aFileName, ios::out | ios::binary | ios::trunc );
     }
     else
     {
-- 
2.43.0


From c425f5cc93f40394d1abfbdb5685ebf633abebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:34 +0000
Subject: [PATCH 38/91] fix: a file with comments on an entity could not be
 read back

---
 src/entities/iges_entity.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 5341d70..09af2f5 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2783,11 +2783,20 @@ bool IGES_ENTITY::formatComments( int& pdSeq )
 
         for( sidx = 0; sidx < sz; )
         {
-            tmp = sCom->substr( sidx, 72 );
+            // note: columns 65 .. 72 contain the DE pointer
+            tmp = sCom->substr( sidx, 64 );
             sidx += tmp.length();
 
-            if( tmp.length() < 72 )
-                tmp.append( 72 - tmp.length(), ' ' );
+            if( tmp.length() < 64 )
+                tmp.append( 64 - tmp.length(), ' ' );
+
+            if( !FormatDEInt( tmp1, sequenceNumber ) )
+            {
+                ERRMSG << "\n + [BUG] could not format optional parameter comment\n";
+                return false;
+            }
+
+            tmp += tmp1;
 
             if( !FormatDEInt( tmp1, pdSeq++ ) )
             {
-- 
2.43.0


From 76e9cfcc5f59a1de7df33777597f6bc5e363a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 39/91] fix: the coordinates of a new Line were uninitialised

---
 src/entities/entity110.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 10764c5..07550d3 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -38,6 +38,8 @@ IGES_ENTITY_110::IGES_ENTITY_110( IGES* aParent ) : IGES_CURVE( aParent )
 {
     entityType = 110;
     form = 0;
+    X1 = Y1 = Z1 = 0.0;
+    X2 = Y2 = Z2 = 0.0;
     return;
 }
 
-- 
2.43.0


From 654efb76790e4ceb44f47b3001a09a5bdbea1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 40/91] fix: a missing unit name did not default to the name of
 the unit

---
 src/iges/iges.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 42269aa..8ab650c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1352,6 +1352,8 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
             ERRMSG << "\n + [CORRUPT FILE] no provided Unit Name for UNIT_EXTERN\n";
             return false;
         }
+
+        globalData.unitsName = UNIT_NAMES[globalData.unitsFlag - UNIT_START];
     }
     else if( globalData.unitsFlag != UNIT_EXTERN )
     {
-- 
2.43.0


From 06d8a99ad76abdefc729027579b39e8a737fb2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 41/91] fix: a long color name was dropped leaving an
 unreadable file

---
 src/entities/entity314.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity314.cpp b/src/entities/entity314.cpp
index 0ce2ed1..0ef6cb1 100644
--- a/src/entities/entity314.cpp
+++ b/src/entities/entity314.cpp
@@ -216,10 +216,12 @@ bool IGES_ENTITY_314::format( int &index )
         else
             idelim = pd;
 
-        ostr.str( "" );
-        ostr << cname.size() << "H" << cname << idelim;
-        tStr = ostr.str();
-        AddPDItem( tStr, fStr, pdout, index, sequenceNumber, pd, rd );
+        if( !AddPDHStr( cname, fStr, pdout, index, sequenceNumber, pd, rd, idelim ) )
+        {
+            ERRMSG << "\n + [INFO] could not format color name\n";
+            pdout.clear();
+            return false;
+        }
     }
 
     if( !extras.empty() && !formatExtraParams( fStr, index, pd, rd ) )
-- 
2.43.0


From 23de17c2c65780e2ba4a98b1b589b21329cedb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 42/91] fix: a file with a self reference or a wrong reference
 in a directory entry crashed the reader

---
 src/entities/iges_entity.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 09af2f5..e38ad6d 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -497,8 +497,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pStructure->addReference(this, dup) )
+            else if( !pStructure->addReference(this, dup) )
             {
                 if( pStructure->GetEntityType() != 0 )
                 {
@@ -558,8 +557,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLineFontPattern->addReference(this, dup) )
+            else if( !pLineFontPattern->addReference(this, dup) )
             {
                 if( pLineFontPattern->GetEntityType() != 0 )
                 {
@@ -596,6 +594,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type ";
                     cerr << pLineFontPattern->GetEntityType();
                     cerr << ") is not a LineFont Pattern (304)\n";
+                    pLineFontPattern->delReference(this);
                     pLineFontPattern = NULL;
                     ok = false;
                 }
@@ -630,8 +629,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLevel->addReference(this, dup) )
+            else if( !pLevel->addReference(this, dup) )
             {
                 if( pLevel->GetEntityType() != 0 )
                 {
@@ -668,6 +666,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Definition Levels Property (406-1)\n";
+                    pLevel->delReference(this);
                     pLevel = NULL;
                     ok = false;
                 }
@@ -702,8 +701,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pView->addReference(this, dup) )
+            else if( !pView->addReference(this, dup) )
             {
                 if( pView->GetEntityType() != 0 )
                 {
@@ -741,6 +739,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a View or Views Visible Associativity Instance (410 or 402-3/4/19)\n";
+                    pView->delReference(this);
                     pView = NULL;
                     ok = false;
                 }
@@ -782,8 +781,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pTransform->addReference(this, dup) )
+            else if( !pTransform->addReference(this, dup) )
             {
                 if( pTransform->GetEntityType() != 0 )
                 {
@@ -819,6 +817,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Transform entity (124)\n";
+                    pTransform->delReference(this);
                     pTransform = NULL;
                     ok = false;
                 }
@@ -853,8 +852,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pLabelAssoc->addReference(this, dup) )
+            else if( !pLabelAssoc->addReference(this, dup) )
             {
                 if( pLabelAssoc->GetEntityType() != 0 )
                 {
@@ -891,6 +889,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << "-" << eForm << ") is not a Label Display Associativity (402-5)\n";
+                    pLabelAssoc->delReference(this);
                     pLabelAssoc = NULL;
                     ok = false;
                 }
@@ -925,8 +924,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 cerr << (idx >> 1) + 1 << ")\n";
                 ok = false;
             }
-
-            if( !pColor->addReference(this, dup) )
+            else if( !pColor->addReference(this, dup) )
             {
                 if( pColor->GetEntityType() != 0 )
                 {
@@ -962,6 +960,7 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                 {
                     ERRMSG << "\n + [CORRUPT FILE] Entity[DE" << (idx >> 1) + 1 << "] (Type " << eType;
                     cerr << ") is not a Color Definition (314)\n";
+                    pColor->delReference(this);
                     pColor = NULL;
                     ok = false;
                 }
-- 
2.43.0


From 196460134ef2420a5b0f2f6f52fcb8587711ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 43/91] fix: an unsupported entity kept pointers to deleted
 entities

---
 src/entities/entityNULL.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/entities/entityNULL.cpp b/src/entities/entityNULL.cpp
index c8a4026..c91504f 100644
--- a/src/entities/entityNULL.cpp
+++ b/src/entities/entityNULL.cpp
@@ -182,8 +182,9 @@ bool IGES_ENTITY_NULL::associate(std::vector<IGES_ENTITY *> *entities)
 
 bool IGES_ENTITY_NULL::unlink(IGES_ENTITY *aChild)
 {
-    // there are no properly established links so in
-    // effect this routine always succeeds
+    // the only properly established links are those of the
+    // Directory Entry; otherwise this routine always succeeds
+    IGES_ENTITY::unlink(aChild);
     return true;
 }
 
-- 
2.43.0


From 2740975f70cb3dffcd57700c3617f875c068958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 44/91] fix: deleting an unknown reference from an entity with
 optional entities did not terminate

---
 src/entities/iges_entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index e38ad6d..3dd3700 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -448,7 +448,7 @@ bool IGES_ENTITY::delReference(IGES_ENTITY *aParentEntity)
             return true;
         }
 
-        ++bref;
+        ++bExt;
     }
 
     return false;
-- 
2.43.0


From b7fd819c1cd0c3761bdce6aaf2f306a8054cef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 45/91] fix: entities which refer to each other in a cycle
 crashed the reader and the model

---
 src/entities/iges_entity.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 3dd3700..c99a6cb 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -27,6 +27,7 @@
 // Note: This base class must never be instantiated.
 
 #include <iomanip>
+#include <set>
 #include <sstream>
 #include <error_macros.h>
 #include <core/iges.h>
@@ -376,6 +377,26 @@ bool IGES_ENTITY::addReference(IGES_ENTITY *aParentEntity, bool &isDuplicate)
         return false;
     }
 
+    // Ensure that the entity is neither the parent itself nor one of the
+    // entities which directly or indirectly refer to the parent
+    std::set<IGES_ENTITY*> ancestors;
+    std::list<IGES_ENTITY*> pending( 1, aParentEntity );
+
+    while( !pending.empty() )
+    {
+        IGES_ENTITY* pEnt = pending.front();
+        pending.pop_front();
+
+        if( pEnt == this )
+        {
+            ERRMSG << "\n + [INFO] requested a circular dependency\n";
+            return false;
+        }
+
+        if( ancestors.insert( pEnt ).second )
+            pending.insert( pending.end(), pEnt->refs.begin(), pEnt->refs.end() );
+    }
+
     std::list<IGES_ENTITY*>::iterator bref = refs.begin();
     std::list<IGES_ENTITY*>::iterator eref = refs.end();
 
-- 
2.43.0


From 288568e3226b96290e28d71959104689fef5f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 46/91] fix: a loop, edge list, face, shell or solid with wrong
 or repeated pointers was released twice or kept dangling pointers

---
 src/entities/entity186.cpp | 12 ++++++++----
 src/entities/entity504.cpp |  8 +++-----
 src/entities/entity508.cpp | 33 +++++++++++++++++++++++++++++++--
 src/entities/entity510.cpp | 10 ++++++----
 src/entities/entity514.cpp | 12 +++++++-----
 5 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/entities/entity186.cpp b/src/entities/entity186.cpp
index e6390bb..c651a25 100644
--- a/src/entities/entity186.cpp
+++ b/src/entities/entity186.cpp
@@ -287,10 +287,13 @@ bool IGES_ENTITY_186::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
+    // note: a file may list the same shell more than once
+    bool found = false;
+
     if( aChildEntity == mshell )
     {
         mshell = NULL;
-        return true;
+        found = true;
     }
 
 
@@ -301,14 +304,15 @@ bool IGES_ENTITY_186::unlink(IGES_ENTITY *aChildEntity)
     {
         if( aChildEntity == sV->first )
         {
-            mvoids.erase( sV );
-            return true;
+            sV = mvoids.erase( sV );
+            found = true;
+            continue;
         }
 
         ++sV;
     }
 
-    return false;
+    return found;
 }
 
 
diff --git a/src/entities/entity504.cpp b/src/entities/entity504.cpp
index df18ecc..6c1e8f5 100644
--- a/src/entities/entity504.cpp
+++ b/src/entities/entity504.cpp
@@ -137,7 +137,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp0 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp0 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         lI = sI->tvp >> 1;
 
@@ -149,7 +149,7 @@ bool IGES_ENTITY_504::associate(std::vector<IGES_ENTITY *> *entities)
             return false;
         }
 
-        lp1 = (IGES_ENTITY_502*)((*entities)[lI]);
+        lp1 = dynamic_cast<IGES_ENTITY_502*>((*entities)[lI]);
 
         if( !AddEdge( cp, lp0, sI->sv, lp1, sI->tv ) )
         {
@@ -306,9 +306,7 @@ bool IGES_ENTITY_504::unlink(IGES_ENTITY *aChildEntity)
                 else if( aChildEntity == sE->tvp )
                 {
                     sE->curv->delReference(this);
-
-                    if( sE->tvp != sE->svp )
-                        delVertexList( sE->svp, false );
+                    delVertexList( sE->svp, false );
 
                     sE = edges.erase( sE );
                     continue;
diff --git a/src/entities/entity508.cpp b/src/entities/entity508.cpp
index f44217f..02f61c7 100644
--- a/src/entities/entity508.cpp
+++ b/src/entities/entity508.cpp
@@ -159,6 +159,7 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
         {
             ERRMSG << "\n + [CORRUPT FILE] edge index exceeds number of entities in DE ";
             cerr << sequenceNumber << "\n";
+            delete ldata;
             deItems.clear();
             return false;
         }
@@ -175,6 +176,14 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
             {
                 ERRMSG << "\n + [CORRUPT FILE] PS curve index exceeds number of entities in DE";
                 cerr << sequenceNumber << "\n";
+
+                while( !ldata->pcurves.empty() )
+                {
+                    delete ldata->pcurves.back();
+                    ldata->pcurves.pop_back();
+                }
+
+                delete ldata;
                 deItems.clear();
                 return false;
             }
@@ -189,6 +198,12 @@ bool IGES_ENTITY_508::associate(std::vector<IGES_ENTITY *> *entities)
 
         if( !AddEdge( ldata ) )
         {
+            while( !ldata->pcurves.empty() )
+            {
+                delete ldata->pcurves.back();
+                ldata->pcurves.pop_back();
+            }
+
             delete ldata;
             ERRMSG << "\n + [INFO] could not add edge data for entity ";
             cerr << sequenceNumber << "\n";
@@ -796,6 +811,12 @@ bool IGES_ENTITY_508::delEdge( IGES_ENTITY* aEdge, bool aFlagAll, bool aFlagUnli
 // add a parent reference to a parameter space curve and ensure no duplicates
 bool IGES_ENTITY_508::addPCurve( IGES_ENTITY* aCurve )
 {
+    if( NULL == aCurve || ENT_VERTEX == aCurve->GetEntityType() || ENT_EDGE == aCurve->GetEntityType() )
+    {
+        ERRMSG << "\n + [INFO]: invalid entity for a PS curve\n";
+        return false;
+    }
+
     vector< LOOP_DATA* >::iterator sF = edges.begin();
     vector< LOOP_DATA* >::iterator eF = edges.end();
 
@@ -912,6 +933,13 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
         return false;
     }
 
+    if( aEdge->data->GetEntityType() != ( aEdge->isVertex ? ENT_VERTEX : ENT_EDGE ) )
+    {
+        ERRMSG << "\n +[INFO] invalid entity (Type " << aEdge->data->GetEntityType();
+        cerr << ") for " << ( aEdge->isVertex ? "vertex\n" : "edge\n" );
+        return false;
+    }
+
     if( !addEdge( aEdge->data ) )
     {
         ERRMSG << "\n +[INFO] could not add edge to list\n";
@@ -925,13 +953,14 @@ bool IGES_ENTITY_508::AddEdge( LOOP_DATA*& aEdge )
     {
         if( !addPCurve( (*sP)->curve ) )
         {
+            // release only what was added here
             while( sP != aEdge->pcurves.begin() )
             {
-                (*sP)->curve->delReference(this);
                 --sP;
+                (*sP)->curve->delReference(this);
             }
 
-            (*sP)->curve->delReference(this);
+            delEdge( aEdge->data, false, false );
             ERRMSG << "\n +[INFO] could not add pcurve to list\n";
             return false;
         }
diff --git a/src/entities/entity510.cpp b/src/entities/entity510.cpp
index 818f20f..2968e61 100644
--- a/src/entities/entity510.cpp
+++ b/src/entities/entity510.cpp
@@ -258,21 +258,23 @@ bool IGES_ENTITY_510::unlink(IGES_ENTITY *aChildEntity)
         return true;
     }
 
+    // note: a file may list the same loop more than once
+    bool found = false;
     vector< IGES_ENTITY_508* >::iterator sL = mloops.begin();
-    vector< IGES_ENTITY_508* >::iterator eL = mloops.end();
 
-    while( sL != eL )
+    while( sL != mloops.end() )
     {
         if( aChildEntity == (*sL) )
         {
             sL = mloops.erase( sL );
-            return true;
+            found = true;
+            continue;
         }
 
         ++sL;
     }
 
-    return false;
+    return found;
 }
 
 
diff --git a/src/entities/entity514.cpp b/src/entities/entity514.cpp
index 06df0f0..66b6f66 100644
--- a/src/entities/entity514.cpp
+++ b/src/entities/entity514.cpp
@@ -235,21 +235,23 @@ bool IGES_ENTITY_514::unlink(IGES_ENTITY *aChildEntity)
     if(IGES_ENTITY::unlink(aChildEntity) )
         return true;
 
+    // note: a file may list the same face more than once
+    bool found = false;
     vector< pair< IGES_ENTITY_510*, bool > >::iterator sF = mfaces.begin();
-    vector< pair< IGES_ENTITY_510*, bool > >::iterator eF = mfaces.end();
 
-    while( sF != eF )
+    while( sF != mfaces.end() )
     {
         if( aChildEntity == sF->first )
         {
-            mfaces.erase( sF );
-            return true;
+            sF = mfaces.erase( sF );
+            found = true;
+            continue;
         }
 
         ++sF;
     }
 
-    return false;
+    return found;
 }
 
 
-- 
2.43.0


From 206ab32a6b35e4339753de6b02a7a31433f5077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 47/91] fix: a wrong number of control points in a NURBS entity
 exhausted the memory

---
 src/entities/entity126.cpp |  8 ++++++++
 src/entities/entity128.cpp | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 804ed8f..02f6e8b 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -487,6 +487,14 @@ bool IGES_ENTITY_126::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // every knot and coefficient takes at least one character
+    if( K > (int)pdout.size() || M > (int)pdout.size() )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] K (" << K << ") or M (" << M << ") exceeds the available data\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:planar/nonplanar)\n";
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 4600520..03c263a 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -520,6 +520,17 @@ bool IGES_ENTITY_128::readPD(std::ifstream &aFile, int &aSequenceVar)
         return false;
     }
 
+    // every knot and coefficient takes at least one character
+    int nData = (int)pdout.size();
+
+    if( K1 > nData || K2 > nData || M1 > nData || M2 > nData
+        || ( K1 + 1.0 ) * ( K2 + 1.0 ) > nData )
+    {
+        ERRMSG << "\n + [CORRUPT FILE] K or M values exceed the available data\n";
+        pdout.clear();
+        return false;
+    }
+
     if( !ParseInt( pdout, idx, PROP1, eor, pd, rd ) )
     {
         ERRMSG << "\n + [INFO] couldn't read PROP1 (0/1:open/closed for all U)\n";
-- 
2.43.0


From 0a04fc8f1f214118d67be988551890a8594afb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 48/91] fix: a surface of revolution without an axis or a
 generatrix was accepted

---
 src/entities/entity120.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/entities/entity120.cpp b/src/entities/entity120.cpp
index 8e93a48..55276e4 100644
--- a/src/entities/entity120.cpp
+++ b/src/entities/entity120.cpp
@@ -102,6 +102,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             L = NULL;
             ERRMSG << "\n + [INFO] could not associate line entity with DE " << iL << "\n";
+            return false;
         }
 
         if( dup )
@@ -134,6 +135,7 @@ bool IGES_ENTITY_120::associate(std::vector<IGES_ENTITY *> *entities)
         {
             C = NULL;
             ERRMSG << "\n + [INFO] could not associate curve (generatrix) with DE " << iC << "\n";
+            return false;
         }
 
         if( dup )
-- 
2.43.0


From 1c84a3263ef4336dd5fcf8dc278ef86dea9bf2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 49/91] fix: the last vertex of a vertex list was written with
 three record delimiters

---
 src/entities/entity502.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity502.cpp b/src/entities/entity502.cpp
index 62a1518..9093b2b 100644
--- a/src/entities/entity502.cpp
+++ b/src/entities/entity502.cpp
@@ -133,7 +133,8 @@ bool IGES_ENTITY_502::format( int &index )
 
     for( int i = 0; i < 3; ++i )
     {
-        if( !FormatPDREal( tStr, vals[i], idelim, uir ) )
+        // only the last item may end the record
+        if( !FormatPDREal( tStr, vals[i], i < 2 ? pd : idelim, uir ) )
         {
             ERRMSG << "\n + [INFO] could not format Point[" << acc << "]\n";
             return false;
-- 
2.43.0


From da2bdb472af037ec06576cb25ad3a53304bcb2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 50/91] fix: a model with invalid delimiters was written as an
 unreadable file

---
 src/iges/iges.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 8ab650c..901c57d 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2036,6 +2036,14 @@ bool IGES::writeStart( std::ofstream& file )
 }
 
 
+// a delimiter must be a printing character which is not a part of a number or Hollerith constant
+static bool isDelimiter( char aDelim )
+{
+    return aDelim > 0x20 && aDelim < 0x7f && aDelim != '+' && aDelim != '-' && aDelim != '.'
+        && aDelim != 'D' && aDelim != 'E' && aDelim != 'H' && ( aDelim < '0' || aDelim > '9' );
+}
+
+
 // write out the GLOBAL SECTION
 bool IGES::writeGlobals( std::ofstream& file )
 {
@@ -2048,6 +2056,12 @@ bool IGES::writeGlobals( std::ofstream& file )
     char pd = globalData.pdelim;
     char rd = globalData.rdelim;
 
+    if( !isDelimiter( pd ) || !isDelimiter( rd ) || pd == rd || pd == ';' )
+    {
+        ERRMSG << "\n + [INFO] invalid parameter or record delimiter\n";
+        return false;
+    }
+
     if( globalData.minResolution < 1e-12 )
         globalData.minResolution = 0.001;
 
-- 
2.43.0


From c4ecce4b370689e2195af0f9a03cc1ed41ffc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 51/91] fix: a subfigure member or inner boundary which was
 removed kept its reference to the former parent

---
 src/entities/entity144.cpp | 1 +
 src/entities/entity308.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/entities/entity144.cpp b/src/entities/entity144.cpp
index c81e082..9aa5d65 100644
--- a/src/entities/entity144.cpp
+++ b/src/entities/entity144.cpp
@@ -874,6 +874,7 @@ bool IGES_ENTITY_144::DelPTI( IGES_ENTITY_142* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             PTI.erase( bref );
             N2 = (int)PTI.size();
             return true;
diff --git a/src/entities/entity308.cpp b/src/entities/entity308.cpp
index d17717f..f1dac3e 100644
--- a/src/entities/entity308.cpp
+++ b/src/entities/entity308.cpp
@@ -599,6 +599,7 @@ bool IGES_ENTITY_308::DelDE( IGES_ENTITY* aPtr )
     {
         if( aPtr == *bref )
         {
+            aPtr->delReference( this );
             DE.erase( bref );
             N = (int)DE.size();
             return true;
-- 
2.43.0


From 2c3b02a529383ea2f243bbcf729e665b461c981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 52/91] fix: NULL passed as directrix or boolean operand
 crashed

---
 src/entities/entity122.cpp | 3 +++
 src/entities/entity180.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/entities/entity122.cpp b/src/entities/entity122.cpp
index 1a09e04..8fc5e47 100644
--- a/src/entities/entity122.cpp
+++ b/src/entities/entity122.cpp
@@ -403,6 +403,9 @@ bool IGES_ENTITY_122::SetDE( IGES_CURVE* aPtr )
         DE = NULL;
     }
 
+    if( NULL == aPtr )
+        return true;
+
     bool dup = false;
 
     if( !aPtr->addReference(this, dup) )
diff --git a/src/entities/entity180.cpp b/src/entities/entity180.cpp
index 7c81d6e..c1df393 100644
--- a/src/entities/entity180.cpp
+++ b/src/entities/entity180.cpp
@@ -583,6 +583,12 @@ bool IGES_ENTITY_180::AddOp( BTREE_OPERATOR op )
 
 bool IGES_ENTITY_180::AddArg( IGES_ENTITY* aOperand )
 {
+    if( !aOperand )
+    {
+        ERRMSG << "\n + [BUG] NULL pointer passed to method\n";
+        return false;
+    }
+
     int iEnt = aOperand->GetEntityType();
 
     if( !typeOK( iEnt ) )
-- 
2.43.0


From 5021162d6f40fa7ca41af188fccf28fb8028eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 53/91] fix: a transformation kept pointers to deleted entities
 other than its own transform

---
 src/entities/entity124.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/entities/entity124.cpp b/src/entities/entity124.cpp
index 6047744..a841943 100644
--- a/src/entities/entity124.cpp
+++ b/src/entities/entity124.cpp
@@ -234,13 +234,6 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return false;
     }
 
-    if( aChildEntity->GetEntityType() != ENT_TRANSFORMATION_MATRIX )
-    {
-        ERRMSG << "\n + [BUG] invalid entity type on entity to unlink (";
-        cerr << aChildEntity->GetEntityType() << ")\n";
-        return false;
-    }
-
     if( aChildEntity == pTransform )
     {
         pTransform = NULL;
@@ -248,7 +241,7 @@ bool IGES_ENTITY_124::unlink(IGES_ENTITY *aChildEntity)
         return true;
     }
 
-    return false;
+    return IGES_ENTITY::unlink( aChildEntity );
 }
 
 
-- 
2.43.0


From f427685b1fb89824ae018b43367e04d66d819f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:39 +0000
Subject: [PATCH 54/91] fix: an optional entity could not be disassociated

---
 src/entities/iges_entity.cpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index c99a6cb..ee3ce53 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -2918,21 +2918,6 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         return false;
     }
 
-    int eType = aEntity->GetEntityType();
-
-    if( eType != 402 && eType != 212 && eType != 312 )
-    {
-        ERRMSG << "\n + [BUG] invalid entity (Type " << eType;
-        cerr << "); only types 402, 212, and 312 are valid.\n";
-        return false;
-    }
-
-    if( !delReference(aEntity) )
-    {
-        ERRMSG << "\n + [INFO] could not delete reference\n";
-        return false;
-    }
-
     vector< IGES_ENTITY* >::iterator sL = extras.begin();
     vector< IGES_ENTITY* >::iterator eL = extras.end();
 
@@ -2940,6 +2925,10 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
     {
         if( *sL == aEntity )
         {
+            // note: Type 402 only contains 'back-pointers'
+            if( aEntity->GetEntityType() != 402 )
+                aEntity->delReference( this );
+
             extras.erase( sL );
             return true;
         }
@@ -2947,7 +2936,7 @@ bool IGES_ENTITY::DelOptionalEntity( IGES_ENTITY* aEntity )
         ++sL;
     }
 
-    ERRMSG << "\n + [BUG] reference deleted but no entry found in <extras>\n";
+    ERRMSG << "\n + [INFO] the entity is not in the list of optional entities\n";
     return false;
 }
 
-- 
2.43.0


From c4d63b9c703ad39b2328e67336e34149487d13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:06 +0000
Subject: [PATCH 55/91] fix: the base name of a path without a dot threw an
 exception

---
 src/iges/mcad_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 17aad6c..83be48b 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -307,7 +307,7 @@ const char* MCAD_FILEPATH::GetBaseName( void )
     {
         *m_basename = m_fullpath->substr( lastSep, lastDot - lastSep );
 
-        if( m_ext->empty() )
+        if( m_ext->empty() && lastDot < m_fullpath->size() )
             *m_ext = m_fullpath->substr( lastDot + 1 );
     }
     else
-- 
2.43.0


From ea5ef9969dd7b2e65092ba1caeccf1ae7e39771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:06 +0000
Subject: [PATCH 56/91] fix: changing the extension of a path kept the old
 extension once it had been retrieved

---
 src/iges/mcad_utils.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 83be48b..39f9032 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -358,29 +358,26 @@ bool MCAD_FILEPATH::SetExtension( const char* anExt )
         return false;
     }
 
-    if( m_ext->empty() && NULL != GetExtension() )
+    if( NULL != anExt && '.' == anExt[0] )
+    {
+        ++anExt;
+
+        if( 0 == anExt[0] )
+            return false;
+    }
+
+    if( NULL != GetExtension() )
         m_fullpath->erase( m_fullpath->size() - m_ext->size() -1 );
 
     m_filename->clear();
+    m_basename->clear();
     m_ext->clear();
 
     if( NULL == anExt || 0 == anExt[0] )
         return true;
 
-    if( '.' != anExt[0] )
-    {
-        m_fullpath->append( 1, '.' );
-        *m_ext = anExt;
-    }
-    else
-    {
-        if( 0 == anExt[1] )
-            return false;
-
-        *m_ext = &anExt[1];
-    }
-
-    m_fullpath->append( *m_ext );
+    m_fullpath->append( 1, '.' );
+    m_fullpath->append( anExt );
     return true;
 }
 
-- 
2.43.0


From c3bba6592f7bc8ab34a16c7f22aebf92dbfd1194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:06 +0000
Subject: [PATCH 57/91] fix: appending to a path always reported failure and
 made an empty path absolute

---
 src/iges/mcad_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/iges/mcad_utils.cpp b/src/iges/mcad_utils.cpp
index 39f9032..a30bcc7 100644
--- a/src/iges/mcad_utils.cpp
+++ b/src/iges/mcad_utils.cpp
@@ -400,11 +400,14 @@ bool MCAD_FILEPATH::Append( const char* aSubPath )
         if( subp.size() == 1 && subp[0] == pathsep )
             return true;
 
-        m_fullpath->append( 1, pathsep );
+        if( !m_fullpath->empty() )
+            m_fullpath->append( 1, pathsep );
+
         m_fullpath->append( subp );
         m_filename->clear();
         m_basename->clear();
         m_ext->clear();
+        return true;
     }
 
     return false;
-- 
2.43.0


From a3f6178258035a74b074c76f712abfe512bdbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 58/91] fix: a NURBS curve claimed to contain a curve which
 does not exist

---
 src/entities/entity126.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 02f6e8b..7cebf79 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -821,7 +821,8 @@ bool IGES_ENTITY_126::GetNormal( MCAD_POINT& aNorm )
 
 int IGES_ENTITY_126::GetNCurves( void )
 {
-    return 1;
+    // a NURBS curve is a simple curve entity
+    return 0;
 }
 
 
-- 
2.43.0


From 716fc0c7939c1f64edc9b4efffb1b8d1a53d8f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 59/91] fix: arcs with a large radius could not be read back

---
 src/entities/entity100.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index d95b177..07560e5 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -370,7 +370,9 @@ bool IGES_ENTITY_100::readPD(std::ifstream &aFile, int &aSequenceVar)
     double d2 = p2.x*p2.x + p2.y*p2.y;
     d1 = d2 - d1;
 
-    if( abs( d1 ) > uir )
+    // note: the difference of the squares is the difference of the radii
+    // multiplied by the sum of the radii
+    if( abs( d1 ) > uir * ( 1.0 + abs( p1.x ) + abs( p1.y ) ) )
     {
         ERRMSG << "\n + [BAD FILE] Circle (DE " << sequenceNumber;
         cerr << ") has unequal radii (diff: " << d1 << ") " << uir << "\n";
-- 
2.43.0


From 6f6afc97b2a3cb56c026d0fff6aadd4a986890b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 60/91] fix: scaling a conic arc changed its shape

---
 src/entities/entity104.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 95be751..0d5fbfd 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,12 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
-    A *= sf;
-    B *= sf;
-    C *= sf;
+    // A.X^2 + B.XY + C.Y^2 + D.X + E.Y + F = 0
     D *= sf;
     E *= sf;
-    F *= sf;
+    F *= sf * sf;
     ZT *= sf;
     X1 *= sf;
     Y1 *= sf;
-- 
2.43.0


From 5679f24ec1cac498f7d870119786105e84b0f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 61/91] fix: curves in the parameter space of a surface were
 scaled as lengths

---
 src/entities/entity100.cpp     |  4 +++
 src/entities/entity104.cpp     |  4 +++
 src/entities/entity110.cpp     |  4 +++
 src/entities/entity126.cpp     | 50 +++-------------------------
 src/entities/iges_entity.cpp   | 60 ++++++++++++++++++++++++++++++++++
 src/include/core/iges_entity.h | 10 ++++++
 6 files changed, 86 insertions(+), 46 deletions(-)

diff --git a/src/entities/entity100.cpp b/src/entities/entity100.cpp
index 07560e5..3cda892 100644
--- a/src/entities/entity100.cpp
+++ b/src/entities/entity100.cpp
@@ -404,6 +404,10 @@ bool IGES_ENTITY_100::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_100::rescale( double sf )
 {
+    // the coordinates of a curve in a parameter space are not lengths
+    if( isParameterCurve() )
+        return true;
+
     zOffset *= sf;
     xCenter *= sf;
     yCenter *= sf;
diff --git a/src/entities/entity104.cpp b/src/entities/entity104.cpp
index 0d5fbfd..5add9a7 100644
--- a/src/entities/entity104.cpp
+++ b/src/entities/entity104.cpp
@@ -356,6 +356,10 @@ bool IGES_ENTITY_104::SetHierarchy( IGES_STAT_HIER aHierarchy )
 
 bool IGES_ENTITY_104::rescale( double sf )
 {
+    // the coordinates of a curve in a parameter space are not lengths
+    if( isParameterCurve() )
+        return true;
+
     // A.X^2 + B.XY + C.Y^2 + D.X + E.Y + F = 0
     D *= sf;
     E *= sf;
diff --git a/src/entities/entity110.cpp b/src/entities/entity110.cpp
index 07550d3..6e5ab91 100644
--- a/src/entities/entity110.cpp
+++ b/src/entities/entity110.cpp
@@ -147,6 +147,10 @@ bool IGES_ENTITY_110::format( int &index )
 
 bool IGES_ENTITY_110::rescale( double sf )
 {
+    // the coordinates of a curve in a parameter space are not lengths
+    if( isParameterCurve() )
+        return true;
+
     X1 *= sf;
     Y1 *= sf;
     Z1 *= sf;
diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index 7cebf79..cde481a 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -308,52 +308,10 @@ bool IGES_ENTITY_126::format( int &index )
 
 bool IGES_ENTITY_126::rescale( double sf )
 {
-    // Before scaling we must determine if this curve is a member of the BPTR
-    // of a Curve on a Parametric Surface (BPTR to Entity 144). We must traverse
-    // the ancestors of this NURBS curve and decide whether or not it
-    // makes sense to scale the control points. If a Curve on Surface is scaled,
-    // only the Z values should be scaled
-
-    list<IGES_ENTITY*> eps;
-    eps.push_back( this );
-
-    IGES_ENTITY* ep = getFirstParentRef();
-    IGES_ENTITY* cps = NULL;
-
-    while( ep )
-    {
-        if( ep->GetEntityType() == ENT_CURVE_ON_PARAMETRIC_SURFACE )
-        {
-            cps = ep;
-            break;
-        }
-
-        eps.push_back( ep );
-        ep = ep->getFirstParentRef();
-    }
-
-    bool scaleXY = true;
-
-    if( cps )
-    {
-        // block the operation if this entity or a parent is equal to BPTR
-        if( ((IGES_ENTITY_142*)cps)->GetBPTR( &ep ) )
-        {
-            list<IGES_ENTITY*>::iterator sP = eps.begin();
-            list<IGES_ENTITY*>::iterator eP = eps.end();
-
-            while( sP != eP )
-            {
-                if( *sP == ep )
-                {
-                    scaleXY = false;
-                    break;
-                }
-
-                ++sP;
-            }
-        }
-    }
+    // The coordinates of a curve in the parameter space of a surface (for
+    // example the BPTR of a Curve on a Parametric Surface) are not lengths;
+    // if such a curve is scaled, only the Z values should be scaled
+    bool scaleXY = !isParameterCurve();
 
     if( NULL == coeffs )
         return true;
diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index ee3ce53..6b34e91 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -3069,6 +3069,66 @@ bool IGES_ENTITY::SetHierarchy( IGES_STAT_HIER aHierarchy )
 }
 
 
+bool IGES_ENTITY::isParameterCurve( void )
+{
+    set<IGES_ENTITY*> curves;   // this curve and the curves which contain it
+    list<IGES_ENTITY*> pending;
+    curves.insert( this );
+    pending.push_back( this );
+
+    while( !pending.empty() )
+    {
+        IGES_ENTITY* cp = pending.front();
+        pending.pop_front();
+
+        for( list<IGES_ENTITY*>::iterator sR = cp->refs.begin(); sR != cp->refs.end(); ++sR )
+        {
+            IGES_ENTITY* ep = *sR;
+
+            switch( ep->GetEntityType() )
+            {
+                case ENT_COMPOSITE_CURVE:
+                    if( curves.insert( ep ).second )
+                        pending.push_back( ep );
+
+                    break;
+
+                case ENT_CURVE_ON_PARAMETRIC_SURFACE:
+                    {
+                        IGES_ENTITY* bp = NULL;
+
+                        if( ((IGES_ENTITY_142*)ep)->GetBPTR( &bp ) && bp == cp )
+                            return true;
+                    }
+
+                    break;
+
+                case ENT_LOOP:
+                    {
+                        vector<LOOP_DATA*>& edges = ((IGES_ENTITY_508*)ep)->edges;
+
+                        for( size_t i = 0; i < edges.size(); ++i )
+                        {
+                            for( size_t j = 0; j < edges[i]->pcurves.size(); ++j )
+                            {
+                                if( edges[i]->pcurves[j]->curve == cp )
+                                    return true;
+                            }
+                        }
+                    }
+
+                    break;
+
+                default:
+                    break;
+            }
+        }
+    }
+
+    return false;
+}
+
+
 IGES_ENTITY* IGES_ENTITY::getFirstParentRef( void )
 {
     if( refs.empty() )
diff --git a/src/include/core/iges_entity.h b/src/include/core/iges_entity.h
index 4c3c60b..9a30692 100644
--- a/src/include/core/iges_entity.h
+++ b/src/include/core/iges_entity.h
@@ -180,6 +180,16 @@ public:
     int getDESequence( void );
 
 
+    /**
+     * Function isParameterCurve
+     * returns true if this curve is defined in the parameter space of a
+     * surface: it is the BPTR of a Curve on a Parametric Surface (142) or
+     * a parameter space curve of a Loop (508), or a constituent of such
+     * a curve. The coordinates of these curves are not lengths.
+     */
+    bool isParameterCurve( void );
+
+
     /**
      * Function getFirstParentRef
      * returns a pointer to the first parent entity in this
-- 
2.43.0


From fc9652baa0e1ca3dcabb62f0a9d93a206bb7284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 62/91] fix: a model scale which is not positive was accepted
 from a file

---
 src/iges/iges.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 901c57d..f5af70c 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1315,7 +1315,7 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // G13: Model Space Scale, REQUIRED, DEFAULT = 1.0;
     double rdefault = 1.0;
 
-    if( !ParseReal( globs, idx, globalData.modelScale, eor, delim, rdelim, &rdefault ) )
+    if( !ParseReal( globs, idx, globalData.modelScale, eor, delim, rdelim, &rdefault ) || globalData.modelScale <= 0.0 )
     {
         ERRMSG << "\n + [CORRUPT FILE] could not retrieve Model Space Scale\n";
         return false;
-- 
2.43.0


From 09090457efdc106915b7aa4fef8f76f2b1834c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 63/91] fix: spline data handed back to the entity it was
 retrieved from was freed before it was copied

---
 src/entities/entity126.cpp | 18 +++++++-----------
 src/entities/entity128.cpp | 25 ++++++++-----------------
 2 files changed, 15 insertions(+), 28 deletions(-)

diff --git a/src/entities/entity126.cpp b/src/entities/entity126.cpp
index cde481a..c913738 100644
--- a/src/entities/entity126.cpp
+++ b/src/entities/entity126.cpp
@@ -1017,17 +1017,10 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     K = nCoeff - 1;
     M = order - 1;
 
-    if( knots )
-    {
-        delete [] knots;
-        knots = NULL;
-    }
-
-    if( coeffs )
-    {
-        delete [] coeffs;
-        coeffs = NULL;
-    }
+    // the data given may be this entity's own (as returned by GetNURBSData)
+    // so the previous data must be retained until it has been copied
+    double* oldKnots = knots;
+    double* oldCoeffs = coeffs;
 
     // flag whether the curve is rational or polynomial
     if( isRational )
@@ -1069,6 +1062,9 @@ bool IGES_ENTITY_126::SetNURBSData( int nCoeff, int order, const double* knot,
     for( int i = 0; i < nDbls; ++i )
         coeffs[i] = coeff[i];
 
+    delete [] oldKnots;
+    delete [] oldCoeffs;
+
     // determine planarity
     if( hasUniquePlane( &vnorm ) )
         PROP1 = 1;
diff --git a/src/entities/entity128.cpp b/src/entities/entity128.cpp
index 03c263a..3db351e 100644
--- a/src/entities/entity128.cpp
+++ b/src/entities/entity128.cpp
@@ -1024,23 +1024,11 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     M1 = order1 - 1;
     M2 = order2 - 1;
 
-    if( knots1 )
-    {
-        delete [] knots1;
-        knots1 = NULL;
-    }
-
-    if( knots2 )
-    {
-        delete [] knots2;
-        knots2 = NULL;
-    }
-
-    if( coeffs )
-    {
-        delete [] coeffs;
-        coeffs = NULL;
-    }
+    // the data given may be this entity's own (as returned by GetNURBSData)
+    // so the previous data must be retained until it has been copied
+    double* oldKnots1 = knots1;
+    double* oldKnots2 = knots2;
+    double* oldCoeffs = coeffs;
 
     // flag whether the surface is rational or polynomial
     if( isRational )
@@ -1099,6 +1087,9 @@ bool IGES_ENTITY_128::SetNURBSData( int nCoeff1, int nCoeff2, int order1, int or
     for( int i = 0; i < nDbls; ++i )
         coeffs[i] = coeff[i];
 
+    delete [] oldKnots1;
+    delete [] oldKnots2;
+    delete [] oldCoeffs;
 
     // XXX - TO BE IMPLEMENTED: determine closure on U (PROP1) and V (PROP2)
     // for now we set the surface as Open in U and Open in V unless the user
-- 
2.43.0


From 807b31ebef58d02f751df1a3996884fb86205619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 64/91] fix: a cylinder with a small radius was read with a
 different height

---
 src/entities/entity154.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entities/entity154.cpp b/src/entities/entity154.cpp
index 197c3f1..6516247 100644
--- a/src/entities/entity154.cpp
+++ b/src/entities/entity154.cpp
@@ -280,7 +280,7 @@ bool IGES_ENTITY_154::readPD(std::ifstream &aFile, int &aSequenceVar)
         if( R > 0.0 )
         {
             ERRMSG << "\n + [BAD FILE] Right Circular Cylinder radius < MinRes \n";
-            H = minRes;
+            R = minRes;
         }
         else
         {
-- 
2.43.0


From a3b88778b2093a1c30c9e2953dba0da7f9935ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 65/91] fix: geometry in files which are not in millimetres was
 checked with a resolution in different units

---
 src/iges/iges.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index f5af70c..386be56 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -627,6 +627,10 @@ bool IGES::Read( const char* aFileName )
 
     if( globalData.convert )
     {
+        // note: until this point the resolution must be in the units of the file
+        // since it is used to check the geometry which has been read
+        globalData.minResolution *= globalData.cf;
+
         for( iEnt = 0; iEnt < nEnt; ++iEnt )
             entities[iEnt]->rescale( globalData.cf );
     }
@@ -1554,7 +1558,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // apply a scale if the model scale is not 1.0
     if( globalData.modelScale < 0.9999998 || globalData.modelScale > 1.000001 )
     {
-        globalData.minResolution /= globalData.modelScale;
         globalData.cf = 1.0 / globalData.modelScale;
         globalData.modelScale = 1.0;
         globalData.convert = true;
@@ -1563,7 +1566,6 @@ bool IGES::readGlobals( IGES_RECORD& rec, std::ifstream& file )
     // note: there is no way to convert from user-specified units
     if( globalData.unitsFlag != UNIT_MILLIMETER && globalData.unitsFlag != UNIT_EXTERN )
     {
-        globalData.minResolution *= UNIT_TO_MM[globalData.unitsFlag - UNIT_START];
         globalData.cf *= UNIT_TO_MM[globalData.unitsFlag- UNIT_START];
         globalData.unitsFlag = UNIT_MILLIMETER;
         globalData.unitsName = UNIT_NAMES[UNIT_MILLIMETER - UNIT_START];
-- 
2.43.0


From 592fd73b874dd883d01c3d5769968b31453cd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:51 +0000
Subject: [PATCH 66/91] fix: culling left orphans which precede the entity that
 referred to them

---
 src/iges/iges.cpp | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 386be56..c63af7a 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -1776,32 +1776,40 @@ bool IGES::readTS( IGES_RECORD& rec, std::ifstream& file )
 // cull unsupported and orphaned entities
 void IGES::Cull( bool vicious )
 {
-    size_t nEnt = entities.size();
-    size_t iEnt;
     int nCulled = 0;
-    std::vector<IGES_ENTITY*> tmpEnts;
+    size_t nEnt;
 
-    for( iEnt = 0; iEnt < nEnt; ++iEnt )
+    // note: the deletion of an entity may leave its children without a
+    // reference and its parents incomplete, whatever their order in the list
+    do
     {
-        if( entities[iEnt]->isOrphaned() ||
-            ( vicious && entities[iEnt]->getNRefs() == 0
-            && entities[iEnt]->GetEntityType() != ENT_SINGULAR_SUBFIGURE_INSTANCE ) )
+        nEnt = entities.size();
+        size_t iEnt;
+        std::vector<IGES_ENTITY*> tmpEnts;
+
+        for( iEnt = 0; iEnt < nEnt; ++iEnt )
         {
+            if( entities[iEnt]->isOrphaned() ||
+                ( vicious && entities[iEnt]->getNRefs() == 0
+                && entities[iEnt]->GetEntityType() != ENT_SINGULAR_SUBFIGURE_INSTANCE ) )
+            {
 #ifdef DEBUG
-            cerr << " + [INFO] deleting Entity " << entities[iEnt]->GetEntityType() << "\n";
+                cerr << " + [INFO] deleting Entity " << entities[iEnt]->GetEntityType() << "\n";
 #endif
 
-            ++nCulled;
-            delete entities[iEnt];
-        }
-        else
-        {
-            tmpEnts.push_back( entities[iEnt] );
+                ++nCulled;
+                delete entities[iEnt];
+            }
+            else
+            {
+                tmpEnts.push_back( entities[iEnt] );
+            }
         }
-    }
 
-    entities.clear();
-    entities = tmpEnts;
+        entities.clear();
+        entities = tmpEnts;
+    }
+    while( entities.size() < nEnt );
 
 #ifdef DEBUG
     cerr << " + [INFO] Entities culled: " << nCulled << "\n";
-- 
2.43.0


From 09e51f99426e5901642f1470559aef90d4dda5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 67/91] fix: an entity with an optional reference to an
 unsupported entity made the whole file unreadable

---
 src/entities/iges_entity.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/entities/iges_entity.cpp b/src/entities/iges_entity.cpp
index 6b34e91..72f7f5f 100644
--- a/src/entities/iges_entity.cpp
+++ b/src/entities/iges_entity.cpp
@@ -1046,6 +1046,13 @@ bool IGES_ENTITY::associate(std::vector<IGES_ENTITY *> *entities)
                     extras.push_back( (*entities)[iEnt] );
                     break;
 
+                case ENT_NULL:
+                    // note: as with any other reference, one to a NULL or an
+                    // unsupported entity is dropped
+                    ERRMSG << "\n + [WARNING] dropped a NULL or unsupported entity in the Optional ";
+                    cerr << "Parameters section for Entity DE " << sequenceNumber << "\n";
+                    break;
+
                 default:
                     ERRMSG << "\n + [INFO] unsupported entity (" << tEnt;
                     cerr << ") in Optional Parameters section for Entity DE ";
-- 
2.43.0


From 4c5abdfb5c6b39c95af727bdbeda6d960d0e12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 68/91] fix: an entity added to another model was owned, and
 deleted, by both; failure cases of Export

---
 src/iges/iges.cpp | 120 ++++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 80 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index c63af7a..641f2ca 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -995,6 +995,10 @@ bool IGES::AddEntity( IGES_ENTITY* aEntity )
         ++sEnt;
     }
 
+    // an entity must only be owned by one model
+    if( NULL != aEntity->parent && this != aEntity->parent )
+        aEntity->parent->UnlinkEntity( aEntity );
+
     entities.push_back( aEntity );
     aEntity->parent = this;
 
@@ -1047,6 +1051,10 @@ bool IGES::UnlinkEntity( IGES_ENTITY* aEntity )
         if( *sEnt == aEntity )
         {
             entities.erase( sEnt );
+
+            if( this == aEntity->parent )
+                aEntity->parent = NULL;
+
             return true;
         }
 
@@ -2452,8 +2460,6 @@ bool IGES::writeGlobals( std::ofstream& file )
 // export all entities to the given IGES* (to be used for creating Assemblies)
 bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
 {
-    *packagedEntity = NULL;
-
     if( NULL == newParent )
     {
         ERRMSG << "\n + [BUG] Export() invoked without a valid IGES pointer\n";
@@ -2466,6 +2472,14 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
+    *packagedEntity = NULL;
+
+    if( this == newParent )
+    {
+        ERRMSG << "\n + [BUG] a model cannot be exported to itself\n";
+        return false;
+    }
+
     if( entities.empty() )
         return true;
 
@@ -2574,96 +2588,42 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
         return false;
     }
 
-    bool isAssy = false;
-    list<IGES_ENTITY*>::iterator sEnt;
-    list<IGES_ENTITY*>::iterator eEnt;
+    bool isAssy = ( sslist.size() > 1 );
+    list<IGES_ENTITY*>* items = &brlist;
 
     if( !sslist.empty() )
-    {
-        if( sslist.size() > 1 )
-            isAssy = true;
-
-        sEnt = sslist.begin();
-        eEnt = sslist.end();
-
-        while( sEnt != eEnt )
-        {
-            if( !p308->AddDE(*sEnt) )
-            {
-                ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                ep = p308;
-                sEnt = sslist.begin();
-
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
-
-                newParent->DelEntity( ep );
-                return false;
-            }
-
-            ++sEnt;
-        }
-    }
+        items = &sslist;
     else if( !tplist.empty() )
-    {
-        sEnt = tplist.begin();
-        eEnt = tplist.end();
+        items = &tplist;
 
-        while( sEnt != eEnt )
-        {
-            if( !p308->AddDE(*sEnt) )
-            {
-                ERRMSG << "\n + [INFO] could not transfer entity to Subfigure Definition\n";
-                sEnt = tplist.begin();
+    // note: adding an entity to the new parent takes it out of this object's list
+    vector<IGES_ENTITY*> transfer( entities );
+    list<IGES_ENTITY*>::iterator sEnt = items->begin();
+    list<IGES_ENTITY*>::iterator eEnt = items->end();
+    bool ok = true;
 
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
+    while( ok && sEnt != eEnt )
+    {
+        ok = p308->AddDE( *sEnt );
+        ++sEnt;
+    }
 
-                newParent->DelEntity( ep );
-                return false;
-            }
+    for( size_t i = 0; ok && i < nEnt; ++i )
+        ok = newParent->AddEntity( transfer[i] );
 
-            ++sEnt;
-        }
-    }
-    else
+    if( !ok )
     {
-        sEnt = brlist.begin();
-        eEnt = brlist.end();
+        ERRMSG << "\n + [INFO] could not transfer entities to the new parent\n";
+        newParent->DelEntity( p308 );
 
-        while( sEnt != eEnt )
+        for( size_t i = 0; i < nEnt; ++i )
         {
-            if( !p308->AddDE(*sEnt) )
-            {
-                ERRMSG << "\n + [INFO] could not transfer MSBO entity to Subfigure Definition\n";
-                sEnt = brlist.begin();
-
-                while( p308->DelDE( *sEnt ) && sEnt != eEnt );
-
-                newParent->DelEntity( ep );
-                return false;
-            }
-
-            ++sEnt;
+            newParent->UnlinkEntity( transfer[i] );
+            transfer[i]->parent = this;
         }
-    }
-
-    for( size_t i = 0; i < nEnt; ++ i )
-    {
-        if( !newParent->AddEntity( entities[i] ) )
-        {
-            ERRMSG << "\n + [INFO] could not transfer entity to parent\n";
-
-            ep = (IGES_ENTITY*)p308;
-            newParent->UnlinkEntity( ep );
 
-            for( size_t j = 0; j < i; ++j )
-            {
-                newParent->UnlinkEntity( entities[j] );
-                entities[j]->parent = this;
-            }
-
-            delete ep;
-            return false;
-        }
+        entities = transfer;
+        return false;
     }
 
     *packagedEntity = p308;
-- 
2.43.0


From b7c027db5a91ecef4ad1219acf7e9d986e1d7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 69/91] fix: Export mixed user-specified and other units, and
 truncated the ratio of line weights

---
 src/iges/iges.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 641f2ca..09637a9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2491,18 +2491,25 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     double pms = newParent->globalData.modelScale;
     IGES_UNIT pUF = newParent->globalData.unitsFlag;
 
-    if( globalData.modelScale != pms )
-        ChangeModelScale( pms );
+    // note: ConvertUnits() refuses to convert between a unit and a user-specified unit
+    if( globalData.unitsFlag != pUF && !ConvertUnits( pUF ) )
+    {
+        ERRMSG << "\n + [INFO] cannot convert to the units of the destination\n";
+        return false;
+    }
 
-    if( globalData.unitsFlag != pUF )
-        ConvertUnits( pUF );
+    if( globalData.modelScale != pms && !ChangeModelScale( pms ) )
+    {
+        ERRMSG << "\n + [INFO] cannot convert to the scale of the destination\n";
+        return false;
+    }
 
     size_t nEnt = entities.size();
 
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = maxLWG / globalData.maxLinewidthGrad;
+    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
     int llw;
 
     for( size_t i = 0; i < nEnt; ++ i )
-- 
2.43.0


From d00ab0d126bd41625ea09a623f2f5f0083eb92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 70/91] fix: an entity deleted through its handle remained in
 the model

---
 src/dllapi/dll_iges_entity.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges_entity.cpp b/src/dllapi/dll_iges_entity.cpp
index 49973f4..fb311de 100644
--- a/src/dllapi/dll_iges_entity.cpp
+++ b/src/dllapi/dll_iges_entity.cpp
@@ -167,7 +167,12 @@ void DLL_IGES_ENTITY::DelEntity( void )
     if( m_valid && NULL != m_entity )
     {
         m_entity->DetachValidFlag( &m_valid );
-        delete m_entity;
+
+        // note: an entity which belongs to a model must be removed from the model
+        IGES* ip = m_entity->GetParentIGES();
+
+        if( NULL == ip || !ip->DelEntity( m_entity ) )
+            delete m_entity;
     }
 
     m_entity = NULL;
-- 
2.43.0


From 0e6414cca289515346eca33723aa53fe061b3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 71/91] fix: entities created through DLL_IGES: a spare entity,
 a deleted entity left in the model, a NULL handle

---
 src/dllapi/dll_iges.cpp | 60 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index f7fa2ec..6b80b23 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -234,103 +234,103 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
     switch( aEntityType )
     {
     case ENT_CIRCULAR_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_100( this->m_iges, false );
         break;
 
     case ENT_COMPOSITE_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_102( this->m_iges, false );
         break;
 
     case ENT_CONIC_ARC:
-        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_104( this->m_iges, false );
         break;
 
     case ENT_LINE:
-        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_110( this->m_iges, false );
         break;
 
     case ENT_SURFACE_OF_REVOLUTION:
-        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_120( this->m_iges, false );
         break;
 
     case ENT_TABULATED_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_122( this->m_iges, false );
         break;
 
     case ENT_TRANSFORMATION_MATRIX:
-        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_124( this->m_iges, false );
         break;
 
     case ENT_NURBS_CURVE:
-        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_126( this->m_iges, false );
         break;
 
     case ENT_NURBS_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_128( this->m_iges, false );
         break;
 
     case ENT_CURVE_ON_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_142( this->m_iges, false );
         break;
 
     case ENT_TRIMMED_PARAMETRIC_SURFACE:
-        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_144( this->m_iges, false );
         break;
 
     /*
     case ENT_RIGHT_CIRCULAR_CYLINDER:
-        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_154( this->m_iges, false );
         break;
 
     case ENT_SOLID_OF_LINEAR_EXTRUSION:
-        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_164( this->m_iges, false );
         break;
 
     case ENT_BOOLEAN_TREE:
-        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_180( this->m_iges, false );
         break;
 
     case ENT_MANIFOLD_SOLID_BREP:
-        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_186( this->m_iges, false );
         break;
     */
 
     case ENT_SUBFIGURE_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_308( this->m_iges, false );
         break;
 
     case ENT_COLOR_DEFINITION:
-        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_314( this->m_iges, false );
         break;
 
     case ENT_SINGULAR_SUBFIGURE_INSTANCE:
-        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_408( this->m_iges, false );
         break;
 
     /*
     case ENT_VERTEX:
-        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_502( this->m_iges, false );
         break;
 
     case ENT_EDGE:
-        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_504( this->m_iges, false );
         break;
 
     case ENT_LOOP:
-        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_508( this->m_iges, false );
         break;
 
     case ENT_FACE:
-        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_510( this->m_iges, false );
         break;
 
     case ENT_SHELL:
-        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, true );
+        aEntityPointer = new DLL_IGES_ENTITY_514( this->m_iges, false );
         break;
         */
 
     default:
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] entity unsupported in API, ID " << aEntityType << "\n";
         return false;
         break;
@@ -338,14 +338,14 @@ bool DLL_IGES::NewAPIEntity( IGES_ENTITY_TYPE aEntityType, DLL_IGES_ENTITY*& aEn
 
     if( NULL == aEntityPointer )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         ERRMSG << "\n + [INFO] failed to instantiate DLL_IGES_ENTITY object\n";
         return false;
     }
 
     if( !aEntityPointer->Attach( ep ) )
     {
-        delete ep;
+        m_iges->DelEntity( ep );
         delete aEntityPointer;
         aEntityPointer = NULL;
         ERRMSG << "\n + [INFO] failed to attach object to DLL_IGES_ENTITY\n";
@@ -364,7 +364,13 @@ bool DLL_IGES::NewIGESEntity( IGES_ENTITY_TYPE aEntityType, IGES_ENTITY** aEntit
         return false;
     }
 
-    aEntityPointer = NULL;
+    if( NULL == aEntityPointer )
+    {
+        ERRMSG << "\n + [BUG] invoked with NULL handle\n";
+        return false;
+    }
+
+    *aEntityPointer = NULL;
     return m_iges->NewEntity( aEntityType, aEntityPointer );
 }
 
-- 
2.43.0


From 3ef1aa4756c8d2aac6e1192d0477af5796312881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 72/91] fix: a NULL product identification crashed

---
 src/dllapi/dll_iges.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dllapi/dll_iges.cpp b/src/dllapi/dll_iges.cpp
index 6b80b23..6333b76 100644
--- a/src/dllapi/dll_iges.cpp
+++ b/src/dllapi/dll_iges.cpp
@@ -645,7 +645,11 @@ bool DLL_IGES::SetProductID_ReceivingSystem( char const* aProductIDRS )
         return false;
     }
 
-    m_iges->globalData.productIDRS = aProductIDRS;
+    if( NULL == aProductIDRS || 0 == aProductIDRS[0] )
+        m_iges->globalData.productIDRS.clear();
+    else
+        m_iges->globalData.productIDRS = aProductIDRS;
+
     return true;
 }
 
-- 
2.43.0


From acfef7e794ec9671e3176daba5988fe2018a6526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 73/91] fix: missing and inverted validity checks, lists of
 curves which were not filled

---
 src/dllapi/dll_entity406.cpp     | 6 ++++++
 src/dllapi/dll_iges_geom_pcb.cpp | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity406.cpp b/src/dllapi/dll_entity406.cpp
index 25951fa..a630981 100644
--- a/src/dllapi/dll_entity406.cpp
+++ b/src/dllapi/dll_entity406.cpp
@@ -95,6 +95,9 @@ bool DLL_IGES_ENTITY_406::NewEntity( void )
 
 const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 {
+    if( !m_valid || NULL == m_entity )
+        return NULL;
+
     const char *result = NULL;
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
 
@@ -110,6 +113,9 @@ const char * DLL_IGES_ENTITY_406::GetProperty_Name( void )
 
 bool DLL_IGES_ENTITY_406::SetProperty_Name( const char * aName )
 {
+    if( !m_valid || NULL == m_entity )
+        return false;
+
     bool result = false;
 
     IGES_ENTITY_406* ep = (IGES_ENTITY_406 *)m_entity;
diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index 3277f8e..b9004b1 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -228,7 +228,7 @@ bool DLL_IGES_GEOM_PCB::GetCurves( IGES* aModel, IGES_CURVE**& aCurveList, int&
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_CURVE* >::iterator sC = curves.begin();
-        std::list< IGES_CURVE* >::iterator eC = curves.begin();
+        std::list< IGES_CURVE* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -249,7 +249,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
     double aMinX, double aMaxX, double aMinY, double aMaxY,
     double zHeight, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline && !m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::list< IGES_ENTITY_126* > curves;
@@ -281,7 +281,7 @@ bool DLL_IGES_GEOM_PCB::GetCurveOnPlane(  IGES* aModel,
         nCurves = ts;
         aCurveList = pl;
         std::list< IGES_ENTITY_126* >::iterator sC = curves.begin();
-        std::list< IGES_ENTITY_126* >::iterator eC = curves.begin();
+        std::list< IGES_ENTITY_126* >::iterator eC = curves.end();
 
         while( sC != eC )
         {
@@ -301,7 +301,7 @@ bool DLL_IGES_GEOM_PCB::GetSegmentWall( IGES* aModel,
     IGES_ENTITY_144**& aSurfaceList, int& nSurfaces,
     double aTopZ, double aBotZ, MCAD_SEGMENT* aSegment, bool aReverse )
 {
-    if( NULL == m_outline || m_valid )
+    if( NULL == m_outline || !m_valid )
         return false;
 
     std::vector< IGES_ENTITY_144* > surfs;
-- 
2.43.0


From 7dbb6101f5dad33e1a8bca5e7ba53222dabe94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 74/91] fix: SetGeneratrixEnd only set the X component

---
 src/dllapi/dll_entity122.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dllapi/dll_entity122.cpp b/src/dllapi/dll_entity122.cpp
index 0a6fb98..b2271b0 100644
--- a/src/dllapi/dll_entity122.cpp
+++ b/src/dllapi/dll_entity122.cpp
@@ -131,8 +131,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( MCAD_POINT pt )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = pt.x;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.y;
-    ((IGES_ENTITY_122*)m_entity)->LX = pt.z;
+    ((IGES_ENTITY_122*)m_entity)->LY = pt.y;
+    ((IGES_ENTITY_122*)m_entity)->LZ = pt.z;
     return true;
 }
 
@@ -143,8 +143,8 @@ bool DLL_IGES_ENTITY_122::SetGeneratrixEnd( double aX, double aY, double aZ )
         return false;
 
     ((IGES_ENTITY_122*)m_entity)->LX = aX;
-    ((IGES_ENTITY_122*)m_entity)->LX = aY;
-    ((IGES_ENTITY_122*)m_entity)->LX = aZ;
+    ((IGES_ENTITY_122*)m_entity)->LY = aY;
+    ((IGES_ENTITY_122*)m_entity)->LZ = aZ;
     return true;
 }
 
-- 
2.43.0


From b5fccd49d982aa56b8bff8c959f6434dba1a211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:29 +0000
Subject: [PATCH 75/91] fix: a new segment or outline deleted the previous one
 instead of detaching it

---
 src/dllapi/dll_iges_geom_pcb.cpp | 3 ++-
 src/dllapi/dll_mcad_outline.cpp  | 3 ++-
 src/dllapi/dll_mcad_segment.cpp  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dllapi/dll_iges_geom_pcb.cpp b/src/dllapi/dll_iges_geom_pcb.cpp
index b9004b1..8eb4141 100644
--- a/src/dllapi/dll_iges_geom_pcb.cpp
+++ b/src/dllapi/dll_iges_geom_pcb.cpp
@@ -54,8 +54,9 @@ DLL_IGES_GEOM_PCB::~DLL_IGES_GEOM_PCB()
 
 bool DLL_IGES_GEOM_PCB::NewOutline( void )
 {
+    // note: an existing outline is detached, it may belong to something else
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_outline.cpp b/src/dllapi/dll_mcad_outline.cpp
index b8001af..e19eb67 100644
--- a/src/dllapi/dll_mcad_outline.cpp
+++ b/src/dllapi/dll_mcad_outline.cpp
@@ -68,8 +68,9 @@ bool DLL_MCAD_OUTLINE::IsValid( void )
 
 bool DLL_MCAD_OUTLINE::NewOutline( void )
 {
+    // note: an existing outline is detached, it may belong to something else
     if( m_valid && m_outline )
-        delete m_outline;
+        m_outline->DetachValidFlag( &m_valid );
 
     m_outline = NULL;
     m_valid = false;
diff --git a/src/dllapi/dll_mcad_segment.cpp b/src/dllapi/dll_mcad_segment.cpp
index 575d28e..72f4cd4 100644
--- a/src/dllapi/dll_mcad_segment.cpp
+++ b/src/dllapi/dll_mcad_segment.cpp
@@ -67,8 +67,9 @@ bool DLL_MCAD_SEGMENT::IsValid( void )
 
 bool DLL_MCAD_SEGMENT::NewSegment( void )
 {
+    // note: an existing segment is detached, it may belong to something else
     if( m_valid && m_segment )
-        delete m_segment;
+        m_segment->DetachValidFlag( &m_valid );
 
     m_segment = NULL;
     m_valid = false;
-- 
2.43.0


From d117cb2c0a346ad842126b4564252c98d1e55154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:08 +0000
Subject: [PATCH 76/91] fix: the list of members of an empty subfigure was
 taken from an empty vector

---
 src/dllapi/dll_entity308.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dllapi/dll_entity308.cpp b/src/dllapi/dll_entity308.cpp
index 5fabaa0..3b6b57a 100644
--- a/src/dllapi/dll_entity308.cpp
+++ b/src/dllapi/dll_entity308.cpp
@@ -131,7 +131,7 @@ bool DLL_IGES_ENTITY_308::GetDEList( size_t& aDESize, IGES_ENTITY**& aDEList )
     }
 
     aDESize = pvDE->size();
-    aDEList = &((*pvDE)[0]);
+    aDEList = pvDE->empty() ? NULL : &((*pvDE)[0]);
     return true;
 }
 
-- 
2.43.0


From e4f9fe88031c2993ae744f5eae0843cc3e0ec68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 77/91] fix: names generated for parts and assemblies within
 the same second were the same

---
 src/iges/iges.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index 09637a9..cea64d9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2672,7 +2672,7 @@ void IGES::GetNewPartName( std::string& name )
     ostr << "part" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxPartNum++;
 
     name = ostr.str();
 
@@ -2692,7 +2692,7 @@ void IGES::GetNewAssemblyName( std::string& name )
     ostr << "assy" << setw(4) << setfill('0') << (date.tm_year + 1900);
     ostr << setw(3) << (date.tm_yday + 1) << setw(2) << date.tm_hour;
     ostr << setw(2) << date.tm_min << setw(2) << date.tm_sec;
-    ostr << setw(4) << idxPartNum;
+    ostr << setw(4) << idxAssyNum++;
 
     name = ostr.str();
 
-- 
2.43.0


From 9dff1b2580279990efea071ce8215c52ab0b595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 78/91] fix: IDFv2 component outlines in TNM units were
 rejected and unknown units accepted

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cba8c80..f5d7c11 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -3251,7 +3251,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     {
         unit = UNIT_THOU;
     }
-    else if( aIdfVersion == IDF_V2 && !CompareToken( "TNM", token ) )
+    else if( aIdfVersion == IDF_V2 && CompareToken( "TNM", token ) )
     {
         unit = UNIT_TNM;
     }
-- 
2.43.0


From 13cafb5359544636220984d0146c1c441913a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 79/91] fix: component positions in IDFv2 boards with TNM units
 were not converted to mm

---
 src/idf/idf_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index cf305e8..e21fe79 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -637,6 +637,12 @@ bool IDF3_COMP_OUTLINE_DATA::readPlaceData( std::ifstream &aBoardFile,
         yoff *= IDF_THOU_TO_MM;
         zoff *= IDF_THOU_TO_MM;
     }
+    else if( aBoard->GetUnit() == IDF3::UNIT_TNM )
+    {
+        xoff *= IDF_TNM_TO_MM;
+        yoff *= IDF_TNM_TO_MM;
+        zoff *= IDF_TNM_TO_MM;
+    }
 
     parent = aBoard->FindComponent( refdes );
 
-- 
2.43.0


From 29b86b1cd506ce0002976216e4778c1c2d7d284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 80/91] fix: text left over from one field of an IDF outline
 was read as part of the next field

---
 src/idf/idf_outlines.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index f5d7c11..73a6474 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -240,6 +240,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
+        tstr.str( "" );
         tstr << entry;
 
         tstr >> tmp;
@@ -444,6 +445,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
+        tstr.str( "" );
         tstr << entry;
 
         tstr >> x;
@@ -484,6 +486,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
+        tstr.str( "" );
         tstr << entry;
 
         tstr >> y;
@@ -524,6 +527,7 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         }
 
         tstr.clear();
+        tstr.str( "" );
         tstr << entry;
 
         tstr >> ang;
-- 
2.43.0


From b1009c7123b2d80c2a3835581055c6f253a79dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 81/91] fix: an IDF section that ends with the file and has no
 final newline was rejected

---
 src/idf/idf_outlines.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 73a6474..5559b37 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1188,7 +1188,7 @@ void BOARD_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -1819,7 +1819,7 @@ void OTHER_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2132,7 +2132,7 @@ void ROUTE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2520,7 +2520,7 @@ void PLACE_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -2872,7 +2872,7 @@ void GROUP_OUTLINE::readData( std::ifstream& aBoardFile, const std::string& aHea
     // check RECORD 4
     while( aBoardFile.good() && !FetchIDFLine( aBoardFile, iline, comment, pos ) );
 
-    if( ( !aBoardFile.good() && aBoardFile.eof() ) || iline.empty() )
+    if( ( !aBoardFile.good() && !aBoardFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
@@ -3324,7 +3324,7 @@ void IDF3_COMP_OUTLINE::readData( std::ifstream& aLibFile, const std::string& aH
     // check RECORD 4
     while( aLibFile.good() && !FetchIDFLine( aLibFile, iline, comment, pos ) );
 
-    if( ( !aLibFile.good() && aLibFile.eof() ) || iline.empty() )
+    if( ( !aLibFile.good() && !aLibFile.eof() ) || iline.empty() )
     {
         ostringstream ostr;
 
-- 
2.43.0


From 13bb41e597bf4e451c9c8ec88ef2c8b1ebbc484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 82/91] fix: the IDF section after an unknown keyword was
 skipped

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index e21fe79..76db1a4 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -1954,6 +1954,7 @@ void IDF3_BOARD::readBrdSection( std::ifstream& aBoardFile, IDF3::FILE_STATE& aB
         }
 
         // This must be a header
+        idx = 0;
         GetIDFString( iline, token, quoted, idx );
 
         if( quoted )
-- 
2.43.0


From 39f0fab8c2c16be3887024a960e1b5db7f6e8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 83/91] fix: a comment within an IDF outline was read as one of
 its points

---
 src/idf/idf_outlines.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 5559b37..cd3c226 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -180,6 +180,17 @@ void BOARD_OUTLINE::readOutlines( std::ifstream& aBoardFile, IDF3::IDF_VERSION a
         if( !FetchIDFLine( aBoardFile, iline, comment, pos ) )
             continue;
 
+        if( comment )
+        {
+            ostringstream ostr;
+
+            ostr << "\n* invalid outline: comment within RECORD 3 of ";
+            ostr << GetOutlineTypeString( outlineType ) << "\n";
+            ostr << "* line: '" << iline << "'";
+
+            throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
+        }
+
         idx = 0;
         GetIDFString( iline, entry, quoted, idx );
 
-- 
2.43.0


From cb8bba1c33ee76b4361335ab6d2c51c1fa6e8a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:48 +0000
Subject: [PATCH 84/91] fix: the board outline survived IDF3_BOARD::Clear() and
 a failed read

---
 src/idf/idf_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 76db1a4..8b73e69 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -4022,6 +4022,7 @@ void IDF3_BOARD::Clear( void )
 {
     // preserve the board thickness
     double thickness = olnBoard.GetThickness();
+    olnBoard.clear();
 
     idfSource.clear();
     brdSource.clear();
-- 
2.43.0


From 1774f7baf1cfa37b5c77cf6ed7e4ee2280d2ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 85/91] fix: the heaviest line weight could be reduced by
 rounding when a model is exported

---
 src/iges/iges.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iges/iges.cpp b/src/iges/iges.cpp
index cea64d9..4fce0f9 100644
--- a/src/iges/iges.cpp
+++ b/src/iges/iges.cpp
@@ -2509,16 +2509,20 @@ bool IGES::Export( IGES* newParent, IGES_ENTITY_308** packagedEntity )
     // determine crude linewidth adjustment; the new linewidths are guaranteed to
     // be incorrect unless (a) they are 0 or (b) maxLWG and maxLW are the same
     // for the new parent IGES and the IGES being merged.
-    double lws = (double)maxLWG / globalData.maxLinewidthGrad;
+    int llwg = globalData.maxLinewidthGrad;
     int llw;
 
+    if( llwg < 1 )
+        llwg = 1;
+
     for( size_t i = 0; i < nEnt; ++ i )
     {
         llw = entities[i]->lineWeightNum;
 
         if( llw > 0 )
         {
-            llw = (int)(double(llw) * lws);
+            // note: the product must be calculated first so that the maximum remains the maximum
+            llw = (int)((long long)llw * maxLWG / llwg);
 
             if( llw == 0 )
                 llw = 1;
-- 
2.43.0


From b9641e0d0312566edc8d0c9e48a875ac35d28ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 86/91] fix: the first point of an OTHER_OUTLINE was written on
 the line of its side, so the file could not be read

---
 src/idf/idf_outlines.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index cd3c226..285db9a 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -1915,6 +1915,7 @@ void OTHER_OUTLINE::writeData( std::ofstream& aBoardFile )
             case LYR_TOP:
             case LYR_BOTTOM:
                 WriteLayersText( aBoardFile, side );
+                aBoardFile << "\n";
                 break;
 
             default:
-- 
2.43.0


From e7d19d1cc77c22083a952671abcd7e8f581a348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 87/91] fix: a PLACE_OUTLINE without a height was written with
 a height of -1

---
 src/idf/idf_outlines.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_outlines.cpp b/src/idf/idf_outlines.cpp
index 285db9a..b4f77a0 100644
--- a/src/idf/idf_outlines.cpp
+++ b/src/idf/idf_outlines.cpp
@@ -2612,7 +2612,7 @@ void PLACE_OUTLINE::writeData( std::ofstream& aBoardFile )
     }
 
     // thickness is optional for OTLN_PLACE, but mandatory for OTLN_PLACE_KEEPOUT
-    if( thickness < 0.0 && outlineType == OTLN_PLACE_KEEPOUT)
+    if( thickness < 0.0 && outlineType == OTLN_PLACE )
     {
         aBoardFile << "\n";
     }
-- 
2.43.0


From 8951a1df22a89a618b2e23432024ef084a37f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 88/91] fix: an IDF file was written in thou if mm was
 requested, and in mm if thou was requested

---
 src/idf/idf_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 8b73e69..786b3cf 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -3105,7 +3105,7 @@ void IDF3_BOARD::writeBoardFile( const std::string& aFileName )
 
 bool IDF3_BOARD::WriteFile( const std::string& aFullFileName, bool aUnitMM, bool aForceUnitFlag )
 {
-    if( aUnitMM != IDF3::UNIT_THOU )
+    if( aUnitMM )
         setUnit( IDF3::UNIT_MM, aForceUnitFlag );
     else
         setUnit( IDF3::UNIT_THOU, aForceUnitFlag );
-- 
2.43.0


From b9bfec000f0eefeef164739144356f2cd8d9220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 89/91] fix: a reference designator with a space in it was
 written without quotes, so the file could not be read

---
 src/idf/idf_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index 786b3cf..e25360e 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -795,8 +795,13 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
         || ( arefdes.size() >= 8 && CompareToken( "NOREFDES", arefdes.substr(0, 8) ) ) )
         arefdes = "NOREFDES";
 
-    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" "
-    << arefdes << "\n";
+    aBoardFile << "\"" << outline->GetGeomName() << "\" \"" << outline->GetPartName() << "\" ";
+
+    // note: a reference designator which contains spaces must be quoted
+    if( arefdes.find_first_of( " \t" ) != std::string::npos )
+        aBoardFile << "\"" << arefdes << "\"\n";
+    else
+        aBoardFile << arefdes << "\n";
 
     IDF3::IDF_UNIT unit = UNIT_MM;
 
-- 
2.43.0


From f2dff650977724c53590ade8c4bd5449a28d2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:20 +0000
Subject: [PATCH 90/91] fix: further outlines of a component on the bottom side
 were written in the wrong place

---
 src/idf/idf_parser.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/idf/idf_parser.cpp b/src/idf/idf_parser.cpp
index e25360e..5a6be94 100644
--- a/src/idf/idf_parser.cpp
+++ b/src/idf/idf_parser.cpp
@@ -771,23 +771,11 @@ void IDF3_COMP_OUTLINE_DATA::writePlaceData( std::ofstream& aBoardFile,
         throw( IDF_ERROR( __FILE__, __FUNCTION__, __LINE__, ostr.str() ) );
     }
 
-    // calculate the final position based on layer
-    double xpos, ypos, ang;
-
-    switch( aSide )
-    {
-        case LYR_TOP:
-            xpos = aXpos + xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle + aoff;
-            break;
-
-        default:
-            xpos = aXpos - xoff;
-            ypos = aYpos + yoff;
-            ang  = aAngle - aoff;
-            break;
-    }
+    // calculate the final position; note: readPlaceData calculates the
+    // offsets in the same manner for both sides of the board
+    double xpos = aXpos + xoff;
+    double ypos = aYpos + yoff;
+    double ang  = aAngle + aoff;
 
     std::string arefdes = aRefDes;
 
-- 
2.43.0


From e6309e82622ba7eda77af79d1f467ba6d3291d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:47 +0000
Subject: [PATCH 91/91] fix: mark the placements of clockwise and lower arcs as
 right-handed

The matrix diag(-1,1,-1) is a rotation; form 1 is for left-handed matrices.
---
 src/geom/geom_cylinder.cpp | 2 +-
 src/geom/iges_geom_pcb.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geom/geom_cylinder.cpp b/src/geom/geom_cylinder.cpp
index 2b253bb..5dba323 100644
--- a/src/geom/geom_cylinder.cpp
+++ b/src/geom/geom_cylinder.cpp
@@ -509,7 +509,7 @@ bool IGES_GEOM_CYLINDER::Instantiate( IGES* model, double top, double bot,
         itrans[i]->T.T.z = 2.0 * bot;
         itrans[i]->T.R.v[0][0] = -1.0;
         itrans[i]->T.R.v[2][2] = -1.0;
-        itrans[i]->SetEntityForm( 1 );
+        itrans[i]->SetEntityForm( 0 );
     }
 
     // piecewise nurbs segments
diff --git a/src/geom/iges_geom_pcb.cpp b/src/geom/iges_geom_pcb.cpp
index 3314411..96e1dc3 100644
--- a/src/geom/iges_geom_pcb.cpp
+++ b/src/geom/iges_geom_pcb.cpp
@@ -1440,7 +1440,7 @@ bool IGES_GEOM_PCB::getCurveArc( IGES* aModel, std::list<IGES_CURVE*>& aCurves,
             tx[i]->T.T.z = 2.0 * zHeight;
             tx[i]->T.R.v[0][0] = -1.0;
             tx[i]->T.R.v[2][2] = -1.0;
-            tx[i]->SetEntityForm( 1 );
+            tx[i]->SetEntityForm( 0 );
 
             if( !arcs[i]->SetTransform( tx[i] ) )
             {
-- 
2.43.0

