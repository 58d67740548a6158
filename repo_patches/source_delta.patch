From 289768afd7c26625accf94cd6c945ea2fdb69cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 001/159] fix: ListGrid copy constructor deleted an
 uninitialised memory pool

---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 9c0065d6304a4d8826759c5ba6c58305933035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 002/159] fix: ListGrid::move left the first item of each cell
 linked to its old cell

---
 src/tools/ListGrid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..7bcba83 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,9 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    //the first item refers back to the cell it is in
+                    if(cells[newX][newY])
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From 2877de8ab9ea71a4dbd65b8075e68d6c27068f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 003/159] fix: BoxLookUpTable accepted points outside the table
 and left border cells unsampled

The bound check admitted index == size (reading past the table), truncation
towards zero mapped points left of the table onto the first cell, and border
cells narrower than the sampling step kept the initial distance 0.
---
 src/tools/BoxLookUpTable.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..9cb6cec 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -62,13 +62,13 @@ void BoxLookUpTable::computeDistances()
         }
     }
     
-    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox); x+= scale / 10.0)
+    for(double x = -centerX; x < cellSizeX * scale - centerX; x+= scale / 10.0)
     {        
         int xi = (x + centerX) / scale;
         if(xi < 0 || xi >= cellSizeX)
             continue;
         
-        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox); y+= scale / 10.0)
+        for(double y = -centerY; y < cellSizeY * scale - centerY; y+= scale / 10.0)
         {
             int yi = (y + centerY) / scale;
 
@@ -119,10 +119,10 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     if(!distanceTable)
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
-    int x = (xp + centerX) / scale;
-    int y = (yp + centerY) / scale;
+    int x = floor((xp + centerX) / scale);
+    int y = floor((yp + centerY) / scale);
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From d76712fbd56b942c517fa64c010862ff7826e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:57 +0000
Subject: [PATCH 004/159] fix: RadialLookUpTable had no entry for the largest
 positive offset

Looking up x or y == +maxRadius/scale read the next row or past the table.
---
 src/tools/RadialLookUpTable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 8a2e28b..13e2806 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -15,8 +15,9 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
     
     this->maxRadius = maxRadius;
     this->scale = scale;
-    numElementsPerLine = maxRadius / scale * 2;
     numElementsPerLineHalf = maxRadius / scale;
+    //offsets from -half up to and including +half are looked up
+    numElementsPerLine = numElementsPerLineHalf * 2 + 1;
 
     computeAngles();
     computeDistances();
-- 
2.43.0


From c15fd00ce1e991ba902bd42cb7606813b69db9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:09 +0000
Subject: [PATCH 005/159] fix: Gaussian density was multiplied by sqrt(det) and
 the mixture density ignored the weights

---
 src/tools/GaussianMixture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From 5572a899515f8e19dcaf3d95088bbbef3f0c7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:21 +0000
Subject: [PATCH 006/159] fix: KMeans produced NaN clusters for empty classes
 and kept stale assignments

A class that lost all its samples (e.g. duplicate samples) got the mean 0/0,
and re-initialising kept the previous assignment, so that run() could stop
before the first update.
---
 src/tools/ExpectationMaximization.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 1f6a77f..1a16902 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -62,7 +62,7 @@ public:
 
 	// create index which stores class assignment for each 
 	// sample. assign evenly in the beginning
-	index.resize( s.size(), 0 );
+	index.assign( s.size(), 0 );
 
 	// initialize the means kdtree and array
 	kdtree.clear();
@@ -95,6 +95,9 @@ public:
 	kdtree.clear();
 	for( size_t j=0; j<numClasses; j++ )
 	{
+	    // a class without samples has no mean
+	    if( !(sum[j] > 0) )
+		continue;
 	    means[j] /= sum[j];
 	    kdtree.insert( Sample( j, means[j]) );
 	}
@@ -127,10 +130,11 @@ public:
 	for( size_t i=0; i<samples.size(); i++ )
 	    stats[index[i]].insert( samples[i], hasWeights ? weights[i] : 1.0 );
 
-	// and calc mean and covariance
-	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res( means.size() );
+	// and calc mean and covariance of all classes that have samples
+	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res;
 	for( size_t j=0; j<means.size(); j++ )
-	    res[j] = stats[j].update();
+	    if( stats[j].sum > 0 )
+		res.push_back( stats[j].update() );
 	return res;
     }
 };
-- 
2.43.0


From 3b6ce889fbfb076c0c464d90d1dcefb8b86a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 007/159] fix: attaching an item of another environment
 destroyed the item

detach() returned the only reference, and the temporary released it before the
item was stored. The id check now comes first, so that a refused item stays
where it was.
---
 src/core/Environment.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..9ef8e5e 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -286,17 +286,18 @@ void Environment::attachItem(EnvironmentItem* item)
             item->unique_id = candidate;
         }
     }
-    else if( item->getEnvironment() != this )
-    {
-	// if it comes from a different environment, it
-	// needs to be detached first
-	item->detach();
-    }
 
     // make sure item not already present
     if( items.count(item->getUniqueId()) ) {
 	throw runtime_error("unique_id of item already in environment. " + item->getUniqueId() );
     }
+
+    // if it comes from a different environment, it needs to be detached first.
+    // Keep a reference, since the other environment may hold the only one.
+    EnvironmentItem::Ptr detached;
+    if( item->isAttached() && item->getEnvironment() != this )
+	detached = item->detach();
+
     // add item to internal list
     items[item->getUniqueId()] = item;
    
-- 
2.43.0


From 0d4190e5c7bfa09d4beca559af1e57a3722cc037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 008/159] fix: repeated layer and operator relations were
 stored more than once

Only the first relation of an item was compared when looking for duplicates.
---
 src/core/Environment.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 9ef8e5e..788837b 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -402,6 +402,20 @@ void Environment::itemModified(EnvironmentItem* item)
     handle( Event( event::ITEM, event::UPDATE, item ) );
 }
 
+/** @return true if the multimap contains the given pair */
+template <class T>
+static bool hasRelation(const T& map, typename T::key_type first, typename T::mapped_type second)
+{
+    typedef typename T::const_iterator iterator;
+    std::pair<iterator,iterator> range = map.equal_range( first );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == second )
+	    return true;
+    }
+    return false;
+}
+
 void Environment::addChild(FrameNode* parent, FrameNode* child)
 {
     assert( parent != child );
@@ -429,8 +443,7 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
+    if( hasRelation( layerTree, child, parent ) )
 	return;
     
     if( !child->isAttached() )
@@ -610,8 +623,7 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
+    if( hasRelation( operatorGraphInput, op, input ) )
 	return false;
     
     if( !op->isAttached() )
@@ -628,8 +640,7 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
+    if( hasRelation( operatorGraphOutput, op, output ) )
 	return false;
 
     if( !op->isAttached() )
-- 
2.43.0


From 39fc9668010e45140a30744672ebabc7fdf60fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 009/159] fix: removing a layer relation that does not exist
 was announced to the event handlers

---
 src/core/Environment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 788837b..9292c62 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -473,6 +473,9 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
+    if( !hasRelation( layerTree, child, parent ) )
+	return;
+
     handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
 
     typedef layerTreeType::iterator iterator;
-- 
2.43.0


From e73c03537e66fe59d406cd53d878c917a09b5143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 010/159] fix: Layer::detachFromOperator left the layer
 generated by its operator

---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From bb4a39a231dd5f5086b23fa3ff5a4fde6a2c7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 011/159] fix: applying an update for an unknown item announced
 a modification of a null item

---
 src/core/Event.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..27f81c1 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -131,6 +131,7 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -142,8 +143,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 2cf1a6748012054588f3499b79dde9cba16af79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 012/159] fix: a new event handler was not told about layer
 relations and unconnected frame trees

---
 src/core/Environment.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 9292c62..8cf99a2 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -186,8 +186,21 @@ void Environment::addEventHandler(EventHandler *handler)
     //set root node
     handler->receive( Event( event::ROOT, event::ADD, getRootNode() ) );
     
-    //iterate over frame tree
+    //iterate over the frame trees. Besides the tree of the root node, there may
+    //be trees of nodes which are not (or no longer) connected to it.
     publishChilds(handler, getRootNode());    
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( *it != getRootNode() && (*it)->isRoot() )
+	    publishChilds(handler, *it);
+    }
+
+    //publish the hierarchy of the layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
 
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
-- 
2.43.0


From 426cef2ecefcab1fdf6cc6470d643098acfbaf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:39 +0000
Subject: [PATCH 013/159] fix: a removed event handler was not told about all
 relations that end

Maps at the root node, layer relations and unconnected frame trees were left out.
---
 src/core/Environment.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 8cf99a2..e2a901d 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -223,22 +223,33 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 	    detachChilds(*it, evl);   
 	}
 	
-	std::list<CartesianMap*> maplist = getMaps(*it);
-	
-	//now it is a leaf, detach all maps attached to framenode
-	for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++) {
-	    evl->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
-	}
-	
-	//and remove the leaf
+	//now it is a leaf, remove it
 	evl->receive( Event( event::FRAMENODE_TREE, event::REMOVE, parent, *it ) );
     }    
 };
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
-    //reverse iterate over the frame node tree and detach all children    
+    //detach all maps from their framenodes
+    for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
+    {
+	handler->receive( Event( event::FRAMENODE, event::REMOVE, it->first, it->second ) );
+    }
+
+    //remove the hierarchy of the layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
+    //reverse iterate over the frame node trees and detach all children    
     detachChilds(getRootNode(), handler);
+    std::vector<FrameNode*> frameNodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = frameNodes.begin(); it != frameNodes.end(); it++)
+    {
+	if( *it != getRootNode() && (*it)->isRoot() )
+	    detachChilds(*it, handler);
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From d667c466eee7095cff668b62ad2070d5f991ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 014/159] fix: re-adding an item or relation was lost in the
 event queue

---
 src/core/Event.cpp        | 7 ++++---
 src/core/EventHandler.cpp | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 27f81c1..fc79020 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,9 +63,10 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
-    // adding and removing will cancel each other, if the events are otherwise the same
-    if( ((operation == event::REMOVE && other.operation == event::ADD)
-        || (operation == event::ADD && other.operation == event::REMOVE))
+    // removing will cancel a previous add, if the events are otherwise the same.
+    // This is not true the other way around: what is added after a remove is
+    // not necessarily what has been removed.
+    if( (operation == event::REMOVE && other.operation == event::ADD)
 	&& type == other.type && id_a == other.id_a && id_b == other.id_b )
 	return event::CANCEL;
 
diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..6cab553 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -81,8 +81,14 @@ void EventQueue::handle( const Event& message )
     event.ref( m_async );
 
     bool valid = true;
+    // true if the event takes the place of a queued remove event
+    bool replaces_remove = false;
     while( it != msgQueue.end() )
     {
+	if( event.operation == event::REMOVE && it->operation == event::REMOVE && event.type == it->type
+		&& event.id_a == it->id_a && event.id_b == it->id_b )
+	    replaces_remove = true;
+
 	event::Result res = 
 	    event.merge( *it );
 
@@ -100,7 +106,7 @@ void EventQueue::handle( const Event& message )
 	    valid = false;
     }
 
-    if( valid )
+    if( valid || replaces_remove )
     {
 	msgQueue.push_back( event );
     }
-- 
2.43.0


From 4f56797a79aa2806b8d8dbd41a60f8421b7fb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 015/159] fix: binary events of items with more than 10000
 bytes of properties were truncated

---
 src/core/Serialization.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..300d65f 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -756,6 +756,13 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     return item;
 }
 
+static int appendToVector(void *data, unsigned char *buffer, size_t size)
+{
+    std::vector<uint8_t>& output = *reinterpret_cast< std::vector<uint8_t>* >(data);
+    output.insert(output.end(), buffer, buffer + size);
+    return 1;
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -767,10 +774,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    yaml_emitter_set_output(&yamlSerialization->emitter, appendToVector, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
@@ -790,7 +794,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // write yaml document to yaml stream
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
+    yaml_emitter_flush( &yamlSerialization->emitter );
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
-- 
2.43.0


From 42e4812b2e639494f1c43150774fa55bbad08833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 016/159] fix: metadata access with the wrong type dereferenced
 a null pointer

---
 src/core/Holder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..0cc33be 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <stdexcept>
 
 namespace envire
 {
@@ -64,13 +65,19 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T>* myself = dynamic_cast< Holder<T>* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T> const* myself = dynamic_cast< Holder<T> const* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 }
 
-- 
2.43.0


From de5cea962b2385b28f24588ef70adc7773c709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:40 +0000
Subject: [PATCH 017/159] fix: transformed extents of two dimensional maps used
 an uninitialised z coordinate

---
 src/Core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core.hpp b/src/Core.hpp
index 8c4dd45..958d05f 100644
--- a/src/Core.hpp
+++ b/src/Core.hpp
@@ -128,7 +128,7 @@ namespace envire
 	    // go through all the permutations to get the corners
 	    for( int i=0; i<pow(2,DIMENSION); i++ )
 	    {
-		Eigen::Vector3d corner;
+		Eigen::Vector3d corner( Eigen::Vector3d::Zero() );
 		for( int j=0; j<DIMENSION; j++ )
 		    corner[j] = (i>>j)&1 ? pc_extents.min()[j] : pc_extents.max()[j];
 		corners.push_back( corner );
-- 
2.43.0


From 46270c24d747874850bb4c6f427a489962ca8d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:22 +0000
Subject: [PATCH 018/159] fix: do not strip the first character of unqualified
 class names when looking them up

---
 src/core/SerializationFactory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..fc5530c 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -27,9 +27,10 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
 	f = classMap[className];
     else 
     {
-	std::string name = className.substr( className.rfind("::") + 2 );
-	if( classMap.count( name ) )
-	    f = classMap[name];
+	// try again without the namespace
+	const size_t pos = className.rfind("::");
+	if( pos != std::string::npos && classMap.count( className.substr( pos + 2 ) ) )
+	    f = classMap[className.substr( pos + 2 )];
     }
 
     if( !f )
-- 
2.43.0


From bbeaacb4934bc2dc418b712e4093ecc072c92357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:14 +0000
Subject: [PATCH 019/159] fix: sign of the second order term in the derivative
 of a rotated point

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..930a7c3 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -126,7 +126,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From fba4068238720d93145a9e55f012ca3a966ece82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:02 +0000
Subject: [PATCH 020/159] fix: signs in the Jacobian of the inverse transform

---
 src/core/Transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 930a7c3..0d2d2ed 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -278,8 +278,8 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Quaterniond q( getTransform().linear() );
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
-    J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+    J << -Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
+	drx_by_dr( q.inverse(), t ), -q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From e4133e1a52b01fc36b57c0b1245314e6d8041de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:06 +0000
Subject: [PATCH 021/159] fix: uncertainty of frames above the common ancestor
 does not affect relative transforms

---
 src/core/Environment.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index e2a901d..f4070a8 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -5,6 +5,7 @@
 #include "Operator.hpp"
 
 #include <algorithm>
+#include <set>
 #include <utility>
 #include <stdexcept>
 #include <Eigen/LU>
@@ -786,18 +787,17 @@ T getTransform( const FrameNode* fn ) { return fn->getTransform(); }
 template <>
 TransformWithUncertainty getTransform( const FrameNode* fn ) { return fn->getTransformWithUncertainty(); }
 
+/** @return the transform from @param from to its ancestor @param to
+ */
 template <class T>
-std::pair<T, const FrameNode*> relativeFrameNodeRoot( const FrameNode* from )
+T transformToAncestor( const FrameNode* from, const FrameNode* to )
 {
     T C_fg(envire::Transform(Eigen::Affine3d::Identity()));
 
-    const FrameNode *t = from;
-    while(!t->isRoot())
-    {
+    for( const FrameNode *t = from; t != to; t = t->getParent() )
 	C_fg = getTransform<T>(t) * C_fg;
-	t = t->getParent();
-    }
-    return make_pair( C_fg, t );
+
+    return C_fg;
 }
 
 template <class T>
@@ -806,13 +806,20 @@ T relativeTransform(const FrameNode* from, const FrameNode* to)
     if (from == to)
         return T( Eigen::Affine3d::Identity() );
 
-    std::pair<T, const FrameNode*> fg = relativeFrameNodeRoot<T>(from);
-    std::pair<T, const FrameNode*> tg = relativeFrameNodeRoot<T>(to);
+    // find the closest common ancestor. Frames above it are not part of the
+    // transform, and must not contribute to its uncertainty.
+    std::set<const FrameNode*> from_ancestors;
+    for( const FrameNode *t = from; t; t = t->getParent() )
+	from_ancestors.insert( t );
+
+    const FrameNode *common = to;
+    while( common && !from_ancestors.count( common ) )
+	common = common->getParent();
 
-    if( fg.second != tg.second )
+    if( !common )
 	throw std::runtime_error("relativeTransform: FrameNodes don't have a common root.");
 
-    return T( tg.first.inverse() * fg.first );
+    return T( transformToAncestor<T>( to, common ).inverse() * transformToAncestor<T>( from, common ) );
 }
 
 Transform Environment::relativeTransform(const FrameNode* from, const FrameNode* to)
-- 
2.43.0


From c19e0f4315eec8ce0253441733df7b951644c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:30 +0000
Subject: [PATCH 022/159] fix: a layer is not dirty after being updated from
 its generator

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 4e691c22b122646f5278e348d82a8aa516c33a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 023/159] fix: points far outside of a grid are not in its
 first cell

---
 src/maps/GridBase.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..ed7355f 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,10 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare as floating point values, since the conversion of values which
+    // are out of range (e.g. infinity) to an integer is undefined
+    double am = floor((x-offsetx)/scalex);
+    double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +417,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    double am = floor(((x-offsetx)/scalex)*multiplier);
+    double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if(0 <= am && (am < (cellSizeX * multiplier)) && 0 <= an && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From d50f4608cf18a8741147d8774cd05ad4b1c6b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 024/159] fix: extents of a grid were one cell too large

---
 src/maps/GridBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index ed7355f..71c0636 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -493,7 +493,8 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    // the extents include the maximum cell
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( int(cellSizeX) - 1, int(cellSizeY) - 1 ) );
 }
 
 template<typename T>
-- 
2.43.0


From e8e9de3f609c25383e3f14230eb4b5d3eb12e9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:58 +0000
Subject: [PATCH 025/159] fix: alignment checks of grids consider scale and
 rotation

---
 src/maps/GridBase.cpp | 46 +++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 71c0636..d62d268 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -602,16 +602,20 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
         getScaleY() != grid.getScaleY() )
 	return false;
 
-    // see if the difference of the world position of the 0 grid cells is a
-    // multiple of the cell scale
-    Eigen::Vector3d rootDiff = 
-	fromGrid( 0, 0, getEnvironment()->getRootNode() )
-	 -grid.fromGrid( 0, 0, grid.getEnvironment()->getRootNode() );
-    Eigen::Vector3d cellDiff = 
-	(rootDiff.array() * Eigen::Array3d( 1.0/getScaleX(), 1.0/getScaleY(), 0 )).matrix();
-
-    if( !(cellDiff.cast<int>().cast<double>() - cellDiff).isZero() )
-	return false;
+    // the cells are aligned if the origin and the axes of this grid are on
+    // cells of the other grid
+    const Position cells[3] = { Position( 0, 0 ), Position( 1, 0 ), Position( 0, 1 ) };
+    for( int i = 0; i < 3; i++ )
+    {
+	Eigen::Vector3d p = grid.toMap( 
+		fromGrid( cells[i].x, cells[i].y, getEnvironment()->getRootNode() ),
+		*grid.getEnvironment()->getRootNode() );
+	const double x = (p.x() - grid.getOffsetX()) / grid.getScaleX() - 0.5;
+	const double y = (p.y() - grid.getOffsetY()) / grid.getScaleY() - 0.5;
+
+	if( fabs( x - rint(x) ) > 1e-6 || fabs( y - rint(y) ) > 1e-6 )
+	    return false;
+    }
 
     return true;
 }
@@ -619,18 +623,22 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
 bool GridBase::isAlignedWith(GridBase const& grid) const
 {
     if (getCellSizeX() != grid.getCellSizeX() ||
-        getCellSizeY() != grid.getCellSizeY() ||
-        getOffsetX() != grid.getOffsetX() ||
-        getOffsetY() != grid.getOffsetY())
+        getCellSizeY() != grid.getCellSizeY())
         return false;
 
+    // the misalignment is largest at one of the corners
     Transform tf = getEnvironment()->relativeTransform(this, &grid);
-    base::Vector3d p(grid.getCellSizeX(), grid.getCellSizeY(), 0);
-    p = tf * p;
-    if (rint(p.x()) != grid.getCellSizeX() ||
-            rint(p.y()) != grid.getCellSizeY())
-        return false;
+    for (int i = 0; i < 4; ++i)
+    {
+        const double xi = (i & 1) ? getCellSizeX() : 0;
+        const double yi = (i & 2) ? getCellSizeY() : 0;
+        const base::Vector3d p = tf * base::Vector3d(
+                xi * getScaleX() + getOffsetX(), yi * getScaleY() + getOffsetY(), 0);
+
+        if (fabs((p.x() - grid.getOffsetX()) / grid.getScaleX() - xi) >= 0.5 ||
+                fabs((p.y() - grid.getOffsetY()) / grid.getScaleY() - yi) >= 0.5)
+            return false;
+    }
 
     return true;
 }
-
-- 
2.43.0


From a5417dd7e64d208e7c2542b14ec04172aa90a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:59 +0000
Subject: [PATCH 026/159] fix: maximum of grids with negative floating point
 values

---
 src/maps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..c06fff4 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,7 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            max = std::numeric_limits<T>::lowest();
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From 9d6238c23dcb080198c94ee33f4b84d6cf0b066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:00 +0000
Subject: [PATCH 027/159] fix: nested rectangles with different top corners
 left out or repeated cells

---
 src/maps/GridBase.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index d62d268..17605c9 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -148,15 +148,9 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(upRight_g, upLeft_g, leftIn);
         lineBresenham(upLeft_g, downLeft_g, leftIn);
 
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-        lineBresenham(upLeftOut, downLeftOut, leftOut);
-
         //points of right side
         lineBresenham(upRight_g, downRight_g, rightIn);
         lineBresenham(downRight_g, downLeft_g, rightIn);
-
-        lineBresenham(upRightOut, downRightOut, rightOut);
-        lineBresenham(downRightOut, downLeftOut, rightOut);
     }
     else
     {
@@ -164,12 +158,25 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(downRight_g, upRight_g, leftIn);
         lineBresenham(upRight_g, upLeft_g, leftIn);
 
-        lineBresenham(downRightOut, upRightOut, leftOut);
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-
         //points of right side
         lineBresenham(downRight_g, downLeft_g, rightIn);
         lineBresenham(downLeft_g, upLeft_g, rightIn);
+    }
+
+    // the corner with the highest y might differ between inner and outer
+    // rectangle for small angles
+    if(upRightOut.y > downRightOut.y)
+    {
+        lineBresenham(upRightOut, upLeftOut, leftOut);
+        lineBresenham(upLeftOut, downLeftOut, leftOut);
+
+        lineBresenham(upRightOut, downRightOut, rightOut);
+        lineBresenham(downRightOut, downLeftOut, rightOut);
+    }
+    else
+    {
+        lineBresenham(downRightOut, upRightOut, leftOut);
+        lineBresenham(upRightOut, upLeftOut, leftOut);
 
         lineBresenham(downRightOut, downLeftOut, rightOut);
         lineBresenham(downLeftOut, upLeftOut, rightOut);
-- 
2.43.0


From 8a75b38af15819d8b626474da7802c67fed5a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 028/159] fix: no-data values got lost in the binary form of
 grids

---
 src/maps/Grid.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index c06fff4..7002fea 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -405,7 +405,12 @@ namespace envire
 	    else
 	    {
 		for (int i = 0; i < count; ++i)
+		{
 		    readGridData(layers[i], so.getBinaryInputStream(getFullPath(getMapFileName( getClassName() ), layers[i])));
+		    double no_data;
+		    if( so.read("nodata_" + boost::lexical_cast<std::string>(i), no_data) )
+			setNoData(layers[i], T(no_data));
+		}
 	    }
 	}
 	else
@@ -447,7 +452,13 @@ namespace envire
 		    writeGridData(layers[i], getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]));
 	    else
 		for( size_t i=0; i<layers.size(); i++ )
+		{
 		    writeGridData(layers[i], so.getBinaryOutputStream(getFullPath(getMapFileName(), layers[i])));
+		    // the files store the no-data value along with the band
+		    std::pair<T, bool> no_data = getNoData(layers[i]);
+		    if( no_data.second )
+			so.write("nodata_" + boost::lexical_cast<std::string>(i), double(no_data.first));
+		}
 
         so.write("map_count", layers.size());
     }
-- 
2.43.0


From c908fa6c55490f063927e88c70cedd901f5fe7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:40 +0000
Subject: [PATCH 029/159] fix: patch count, extents and index of an MLS grid
 after move

---
 src/maps/MLSGrid.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..30e8e0b 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -762,5 +762,14 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // the patches are in other cells now, and some may be gone
+    cellcount = 0;
+    extents = CellExtents();
+    if(index) index->reset();
+    for(size_t xi=0;xi<cellSizeX;xi++)
+	for(size_t yi=0;yi<cellSizeY;yi++)
+	    for( iterator it = cells.beginCell(xi,yi); it != cells.endCell(); it++ )
+		addCell( Position(xi, yi) );
 }
 
-- 
2.43.0


From ec0394947453f287c23221d6c00c622273aedde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:21 +0000
Subject: [PATCH 030/159] fix: index of an MLS grid after an assignment

---
 src/maps/MLSGrid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 30e8e0b..7baac10 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -54,6 +54,9 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+
+	if( index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From 76cdf9a01aaa4b08e9d383b481d2bcaa5081dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:46 +0000
Subject: [PATCH 031/159] fix: gap size and thickness of an MLS grid got lost
 in serialization

---
 src/maps/MLSGrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 7baac10..49baf1d 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -151,6 +151,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", config.gapSize );
+    so.write( "thickness", config.thickness );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -168,6 +170,8 @@ void MLSGrid::unserialize(Serialization& so)
 	so.read( "hasCellColor", config.useColor );
     else
 	config.useColor = false;
+    so.read( "gapSize", config.gapSize );
+    so.read( "thickness", config.thickness );
 
     cells.resize( cellSizeX, cellSizeY );
 
-- 
2.43.0


From a557ce0110e2046abad52c1e1a36fd45e0ed49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:01 +0000
Subject: [PATCH 032/159] fix: intervals overlap also if one encloses the other

---
 src/maps/MLSPatch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..e244afc 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -11,9 +11,7 @@ namespace envire
 template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
-    return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+    return (a1 < b2) && (b1 < a2);
 }
 
 
-- 
2.43.0


From 2c3817b3c9d9ee9ac703ecb57ad4357d7b792356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:39 +0000
Subject: [PATCH 033/159] fix: patches got a negative height or grew when cut
 by a newer patch

---
 src/maps/MLSPatch.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index e244afc..7254ac8 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -314,7 +314,7 @@ struct SurfacePatch
 		    {
 			// the new patch fully encloses the old one, 
 			// so will overwrite it
-			if( ro.mean > rp.mean && ro.mean - ro.height < rp.mean - rp.height )
+			if( ro.mean >= rp.mean && ro.mean - ro.height <= rp.mean - rp.height )
 			{
 			    p = ro;
 			    return true; 
@@ -323,7 +323,7 @@ struct SurfacePatch
 			// the other patch is occupied, so cut
 			// the free patch accordingly
 			if( ro.mean < rp.mean )
-			    rp.height = rp.mean - ro.mean;
+			    rp.height = std::min( rp.height, rp.mean - ro.mean );
 			else if( ro.mean - ro.height < rp.mean )
 			{
 			    double new_mean = ro.mean - ro.height;
-- 
2.43.0


From c1e5c2f9340d6362632a5d1f14518687e2c25972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 034/159] fix: grid cache of an MLS map ignored that grids move
 or are removed

---
 src/maps/MLSMap.cpp | 9 ++++++---
 src/maps/MLSMap.hpp | 3 ---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..d7c4833 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -87,9 +87,13 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 {
     // see if we can use the cache. This will reduce the amount of transform
     // calculations
-    if( cache.grid )
-	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
+    // note that the grid may have been removed or moved in the meantime
+    if( cache.grid && std::find( grids.begin(), grids.end(), cache.grid ) != grids.end() )
+    {
+	Transform C_m2g = env->relativeTransform( getFrameNode(), cache.grid->getFrameNode() );
+	if( ::getPatch( cache.grid, C_m2g, p, patch, sigma_threshold ) )
 	    return true;
+    }
 
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
@@ -99,7 +103,6 @@ bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_thresho
 	if( ::getPatch( grid, C_m2g, p, patch, sigma_threshold ) )
 	{
 	    cache.grid = it->get();
-	    cache.trans = C_m2g;
 	    return true;
 	}
     }
diff --git a/src/maps/MLSMap.hpp b/src/maps/MLSMap.hpp
index 806bd47..a826ff7 100644
--- a/src/maps/MLSMap.hpp
+++ b/src/maps/MLSMap.hpp
@@ -75,11 +75,8 @@ public:
 protected:
     struct Cache
     {
-     public:
-        EIGEN_MAKE_ALIGNED_OPERATOR_NEW
 	Cache() : grid( NULL ) {}
 	MLSGrid* grid;
-	Transform trans;
     };
 
     Cache cache;
-- 
2.43.0


From 0866ebbbd5af4cbfb514240ef100db825862e5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 035/159] fix: height offset was lost or reversed when merging
 and matching MLS grids

---
 src/maps/MLSGrid.cpp       | 12 ++++++------
 src/maps/MLSMap.cpp        |  4 ++--
 src/maps/MLSPatch.hpp      | 14 ++++++++++++++
 src/operators/MergeMLS.cpp |  4 ++--
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 49baf1d..6c78705 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -617,7 +617,7 @@ void MLSGrid::merge( const MLSGrid& other, const Eigen::Affine3d& other2this, co
 	    for(envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); cit != other.endCell(); cit++ )
 	    {
 		SurfacePatch meas_patch( *cit );
-		meas_patch.mean += offset.mean + mappos.z();
+		meas_patch.translateZ( offset.mean + mappos.z() );
 		meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 		meas_patch.update_idx = offset.update_idx;
 
@@ -647,13 +647,13 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 	{
 	    // get center of cell and transform position
 	    // to this grid
-	    Eigen::Vector3d pos( Eigen::Vector3d::Zero() );
-	    other.fromGrid( it->x, it->y, pos.x(), pos.y() );
-	    pos = other2this * pos;
+	    Eigen::Vector3d pos3( Eigen::Vector3d::Zero() );
+	    other.fromGrid( it->x, it->y, pos3.x(), pos3.y() );
+	    pos3 = other2this * pos3;
 
 	    // if it is still valid in this grid get cell position
 	    size_t m, n;
-	    if( toGrid( pos.x(), pos.y(), m, n ) )
+	    if( toGrid( pos3.x(), pos3.y(), m, n ) )
 	    {
 		Position pos(m, n);
 		// iterate through cells in source map
@@ -663,7 +663,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 		    while( cit != other.endCell() )
 		    {
 			SurfacePatch meas_patch( *cit );
-			meas_patch.mean += offset.mean;
+			meas_patch.translateZ( offset.mean + pos3.z() );
 			meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 			meas_patch.update_idx = offset.update_idx;
 
diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index d7c4833..ef4a7db 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -66,7 +66,7 @@ inline bool getPatch( MLSGrid* grid, const Transform& C_m2g, const Point& p, MLS
     {
 	// offset the z-coordinate which is given in map to grid 
 	MLSGrid::SurfacePatch probe( patch );
-	probe.mean += C_m2g.translation().z();
+	probe.translateZ( C_m2g.translation().z() );
 
 	MLSGrid::SurfacePatch* res = 
 	    grid->get( pos, probe, sigma_threshold );
@@ -76,7 +76,7 @@ inline bool getPatch( MLSGrid* grid, const Transform& C_m2g, const Point& p, MLS
 	    patch = *res;
 	    // offset the z-coordinate, so that it is expressed in terms
 	    // of the map and not the grid
-	    patch.mean -= C_m2g.translation().z();
+	    patch.translateZ( -C_m2g.translation().z() );
 	    return true;
 	}
     }
diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 7254ac8..910433c 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -71,6 +71,20 @@ struct SurfacePatch
 	    updatePlane();
 	};
 
+    /** shift the patch along the Z axis, including the accumulated values
+     * of the sum and slope update models
+     */
+    void translateZ( float dz )
+    {
+	mean += dz;
+	min += dz;
+	max += dz;
+	plane.zz += 2.0f * dz * plane.z + dz * dz * plane.n;
+	plane.z += dz * plane.n;
+	plane.xz += dz * plane.x;
+	plane.yz += dz * plane.y;
+    }
+
     void updateSum() 
     {
 	mean = plane.z / plane.n;
diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..76a2dbf 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -67,7 +67,7 @@ bool MergeMLS::updateAll()
 			MLSGrid::Position t_pos;
 			if( output->toGrid( target_pos.head<2>(), t_pos ) )
 			{
-			    p.mean = target_pos.z();
+			    p.translateZ( target_pos.z() - p.mean );
 			    output->updateCell( t_pos.x, t_pos.y, p );
 			}
 		    }
@@ -115,7 +115,7 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean += src_pos.z();
+			    p.translateZ( -src_pos.z() );
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From 377456a46afbc8a39620bd7da8f8880d7429a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:58 +0000
Subject: [PATCH 036/159] fix: spread of summed measurements depended on their
 absolute height

---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 910433c..50b5898 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -92,7 +92,7 @@ struct SurfacePatch
         if( n > 1 )
         {
             float var = 
-                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*(plane.n - 2.0))) * norm - n/plane.n));
+                std::max(1e-6f, (float)((plane.zz - pow(mean,2)*plane.n) * norm - n/plane.n));
             stdev = sqrt(var);
         }
         else
-- 
2.43.0


From b389cd43c9be4067f15ce68ed697fcf48a5c37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:59 +0000
Subject: [PATCH 037/159] fix: a new active grid of an MLS map was always
 aligned

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ef4a7db..90422a5 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -141,7 +141,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     else
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 103841795911ecbfd7defa411d9866fbb510d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:39 +0000
Subject: [PATCH 038/159] fix: deep copy of an MLS map was placed in the root
 frame

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 90422a5..fe3634c 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -193,7 +193,7 @@ MLSMap* MLSMap::cloneDeep()
 
 	env->setFrameNode( active_clone, active->getFrameNode() );
 	
-	env->attachItem( res );
+	env->attachItem( res, getFrameNode() );
 
 	typedef std::vector<MLSGrid::Ptr>::iterator iterator;
 	for( iterator it = res->grids.begin(); it != res->grids.end(); it++ )
-- 
2.43.0


From e36f61423f9b73860b5ccfc49ae4afd89835dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 039/159] fix: type of the vertex attributes when clearing and
 cutting point clouds

---
 src/maps/Pointcloud.hpp         | 2 +-
 src/operators/CutPointcloud.cpp | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index fd17de0..2c15b40 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -57,7 +57,7 @@ namespace envire {
 	    vertices.clear();
 	    if( hasData( VERTEX_COLOR ) ) getVertexData<Eigen::Vector3d>( VERTEX_COLOR ).clear();
 	    if( hasData( VERTEX_NORMAL ) ) getVertexData<Eigen::Vector3d>( VERTEX_NORMAL ).clear();
-	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<attr_flag>( VERTEX_ATTRIBUTES ).clear();
+	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<vertex_attr>( VERTEX_ATTRIBUTES ).clear();
 	    if( hasData( VERTEX_VARIANCE ) ) getVertexData<double>( VERTEX_VARIANCE ).clear();
 	};
 
diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..187ec8e 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -80,11 +80,11 @@ bool CutPointcloud::updateAll(){
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *source_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *source_vertex_attributes_data = NULL;
     std::vector<double> *source_vertex_variance_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *target_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *target_vertex_attributes_data = NULL;
     std::vector<double> *target_vertex_variance_data = NULL;
     if( sourcecloud->hasData(Pointcloud::VERTEX_NORMAL) )
     {
@@ -98,8 +98,8 @@ bool CutPointcloud::updateAll(){
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_ATTRIBUTES) )
     {
-        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
-        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
+        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
+        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_VARIANCE) )
     {
-- 
2.43.0


From 9681ace2bbcb7801edaf2ab3c78791573a734e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:46 +0000
Subject: [PATCH 040/159] fix: cutting point clouds with attributes but without
 variances

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index 187ec8e..c33d87b 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0


From f55fcdbded3769fb005c2f3c154e843ea63befe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 041/159] fix: colours of point clouds got darker each time
 they were saved

---
 src/tools/PlyFile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 6471f1c..111662d 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -284,9 +284,9 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 
 	for(size_t i=0;i<colors.size();i++)
 	{
-	    unsigned char r = colors[i].x()*255; 
-	    unsigned char g = colors[i].y()*255; 
-	    unsigned char b = colors[i].z()*255; 
+	    unsigned char r = colors[i].x()*255 + 0.5; // rounded
+	    unsigned char g = colors[i].y()*255 + 0.5; // rounded
+	    unsigned char b = colors[i].z()*255 + 0.5; // rounded
 	    data.write( reinterpret_cast<char*>(&r), sizeof(unsigned char) );
 	    data.write( reinterpret_cast<char*>(&g), sizeof(unsigned char) );
 	    data.write( reinterpret_cast<char*>(&b), sizeof(unsigned char) );
-- 
2.43.0


From 2745b4f18068fc2edbd5f463a88d8dfcef39660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 042/159] fix: point clouds with an empty normal or colour
 array could not be saved

---
 src/tools/PlyFile.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 111662d..aedfd16 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -174,6 +174,11 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 {
     const std::string version = "1.0";
     const std::string precision = doublePrecision ? "double" : "float";
+    // arrays that exist but have not been filled are not part of the file
+    const bool hasNormals = pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) &&
+	!pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).empty();
+    const bool hasColors = pointcloud->hasData( Pointcloud::VERTEX_COLOR ) &&
+	!pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).empty();
 
     data << "ply" << "\n";
     data << "format ";
@@ -193,7 +198,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
     data << "property " << precision << " y\n";
     data << "property " << precision << " z\n";
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	data << "element normal " << pointcloud->vertices.size() <<  "\n";
 	data << "property " << precision << " x\n";
@@ -201,7 +206,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 	data << "property " << precision << " z\n";
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	data << "element color " << pointcloud->vertices.size() <<  "\n";
 	data << "property uchar red\n";
@@ -245,7 +250,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
       }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	std::vector<Eigen::Vector3d> &normals( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
 	if( normals.size() != pointcloud->vertices.size() )
@@ -276,7 +281,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
         }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	std::vector<Eigen::Vector3d> &colors( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	if( colors.size() != pointcloud->vertices.size() )
-- 
2.43.0


From 841af820bf7a8b9a10d17bc02914a05326992f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 043/159] fix: text form of point clouds was rounded to six
 digits

---
 src/maps/Pointcloud.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 09d6083..6bdc72a 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -3,6 +3,7 @@
 #include "tools/PlyFile.hpp"
 
 #include <fstream>
+#include <limits>
 
 using namespace envire;
 
@@ -72,11 +73,13 @@ bool Pointcloud::readPly(const std::string& filename, std::istream& is)
 
 bool Pointcloud::writeText(std::ostream& os)
 {
+    const std::streamsize precision = os.precision( std::numeric_limits<double>::digits10 + 2 );
     for(size_t i=0;i<vertices.size();i++)
     {
 	os << vertices[i].x() << " " << vertices[i].y() << " " << vertices[i].z() << std::endl;
     }
-    
+    os.precision( precision );
+
     return true;
 }
 
-- 
2.43.0


From 30752ae22b87adf8a581d2d1743ec724d3a9f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:55 +0000
Subject: [PATCH 044/159] fix: made up points and red remission values in text
 form of point clouds

---
 src/maps/Pointcloud.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 6bdc72a..80fbf5d 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -94,12 +94,15 @@ bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
 	if( sample == 1 || (rand() % sample == 0) )
 	{
 	    double x, y, z, c;
-	    is >> x >> y >> z;
-	    if( format == XYZR && color )
+	    if( !(is >> x >> y >> z) || (format == XYZR && !(is >> c)) )
 	    {
-		is >> c;
-		color->push_back( Eigen::Vector3d::Identity() * c / 255.0 );
+		// there may be white space after the last sample
+		if( is.eof() )
+		    break;
+		throw std::runtime_error("Could not parse the text form of a pointcloud.");
 	    }
+	    if( format == XYZR && color )
+		color->push_back( Eigen::Vector3d::Ones() * c / 255.0 );
 	
 	    vertices.push_back( Eigen::Vector3d( x,y,z ) );
 	    is.ignore( max_line_length, '\n' );
-- 
2.43.0


From 4b99a72f6eb8e7b06d6f3d17d1c50a887fd91d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 045/159] fix: vertex normals only considered the last face of
 a vertex

---
 src/maps/TriMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TriMesh.cpp b/src/maps/TriMesh.cpp
index e9028f0..36d3b20 100644
--- a/src/maps/TriMesh.cpp
+++ b/src/maps/TriMesh.cpp
@@ -48,7 +48,7 @@ void TriMesh::calcVertexNormals()
 	Eigen::Vector3d normal = (a[0]-a[1]).cross(a[2]-a[1]).normalized();
 
 	for(int n=0;n<3;n++)
-	    point_normal[tri[n]] = normal;
+	    point_normal[tri[n]] += normal;
     }
     
     // normalize the normals and set vertices without normals to defined value
-- 
2.43.0


From 18252264ae26a1d8c783fb9db77f99df313de6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 046/159] fix: environments with a feature cloud could not be
 loaded

---
 src/maps/Featurecloud.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 5a48c88..49de78c 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -10,16 +10,15 @@ Featurecloud::Featurecloud()
 
 void Featurecloud::serialize(Serialization& so)
 {
-    Pointcloud::serialize( so, false );
-
-    // TODO write map file
+    // TODO the keypoints and descriptors are not written
+    Pointcloud::serialize( so, true );
 }
 
 void Featurecloud::unserialize(Serialization& so)
 {
     Pointcloud::unserialize(so);
     
-    // TODO read map file
+    // TODO the keypoints and descriptors are not read
 }
 
 void Featurecloud::clear() 
-- 
2.43.0


From 163a8d5cc1bee6f3f7d9c42cebe77c9d18768a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 047/159] fix: uninitialised members of empty laser scans

---
 src/maps/LaserScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 49b8a91..dbffed7 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -13,7 +13,7 @@ using namespace std;
 ENVIRONMENT_ITEM_DEF( LaserScan )
 
 LaserScan::LaserScan()
-    : origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), x_forward( false )
+    : delta_psi(0), origin_psi(0), origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), points_per_line(0), x_forward( false )
 {
 }
 
-- 
2.43.0


From e8500165139d73d6a5bab2ebea6d270ae132e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 048/159] fix: endless loop and made up values when parsing
 laser scans

---
 src/maps/LaserScan.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index dbffed7..5db1cf6 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -154,11 +154,11 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
 
-            while( !iline.eof() ) {
-                int dist;
-                iline >> dist;
+            unsigned int dist;
+            while( iline >> dist )
                 scanline.ranges.push_back( dist );
-            }
+            if( !iline.eof() )
+                throw std::runtime_error("could not parse the ranges of a scan line.");
 
             points_per_line = scanline.ranges.size();
 
@@ -176,11 +176,12 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 	    if( dphi != scanline.delta_phi )
 		throw std::runtime_error("remission line does not have the same delta_phi value as prior line statement.");
 
-            while( !iline.eof() ) {
-                float rem;
-                iline >> rem;
+            // scans of other sources may have fractional remission values
+            double rem;
+            while( iline >> rem )
                 scanline.remissions.push_back( rem );
-            }
+            if( !iline.eof() )
+                throw std::runtime_error("could not parse the remissions of a scan line.");
 
             points_per_line = scanline.remissions.size();
         }
-- 
2.43.0


From 70c117b795b746ecada847b3c6f429d0c8eed4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 049/159] fix: angles and offsets of laser scans were rounded
 when saved

---
 src/maps/LaserScan.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 5db1cf6..765c635 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -2,6 +2,9 @@
 
 #include <string>
 #include <fstream>
+#include <sstream>
+#include <limits>
+#include <iomanip>
 
 #include <stdexcept>
 #include <iostream>
@@ -199,13 +202,16 @@ bool LaserScan::readScan( std::istream& is )
 
 bool LaserScan::writeScan( std::ostream& os )
 {
+    // enough digits for single precision values
+    const std::streamsize precision = os.precision( std::numeric_limits<float>::digits10 + 3 );
+
     os << "delta_psi " << delta_psi << endl;
     os << "origin_psi " << origin_psi << endl;
     os << "origin_phi " << origin_phi << endl;
-    os << "center_offset " 
+    os << "center_offset " << std::setprecision( std::numeric_limits<double>::digits10 + 2 )
 	<< center_offset.x() << " " 
 	<< center_offset.y() << " " 
-	<< center_offset.z() << endl;
+	<< center_offset.z() << std::setprecision( std::numeric_limits<float>::digits10 + 3 ) << endl;
 
     for( vector<scanline_t>::iterator it=lines.begin();it!=lines.end();it++)
     {
@@ -227,6 +233,8 @@ bool LaserScan::writeScan( std::ostream& os )
 	}
     }	
 
+    os.precision( precision );
+
     return true;
 }
 
-- 
2.43.0


From ac0d6c99ccf368266bd2c69a324921fc1d214d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:21 +0000
Subject: [PATCH 050/159] fix: forward direction of laser scans was not saved

---
 src/maps/LaserScan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 765c635..4db7b09 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -153,6 +153,10 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             iline >> center_offset.x() >> center_offset.y() >> center_offset.z();
         }
 
+        if( key == "x_forward" ) {
+            iline >> x_forward;
+        }
+
         if( key == "line" ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
@@ -213,6 +217,8 @@ bool LaserScan::writeScan( std::ostream& os )
 	<< center_offset.y() << " " 
 	<< center_offset.z() << std::setprecision( std::numeric_limits<float>::digits10 + 3 ) << endl;
 
+    os << "x_forward " << x_forward << endl;
+
     for( vector<scanline_t>::iterator it=lines.begin();it!=lines.end();it++)
     {
 	os << "line " << (*it).delta_phi;
-- 
2.43.0


From 325aed2041abb5e6cab2cb2747699b8d87e96ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 051/159] fix: cells were looked up at the mirrored position
 when converting grids to MLS

---
 src/operators/GridFloatToMLS.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..c18baf8 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,7 +49,8 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
+    Transform grid2mls = mls2grid.inverse( Eigen::Isometry );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
@@ -59,17 +60,19 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
+            // use the center of the cell
+            double x, y;
+            mls->fromGrid(xi, yi, x, y);
             Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
-            mls->updateCell(xi, yi, value, 0);
+            Eigen::Vector3d p = grid2mls * Eigen::Vector3d(src_p.x(), src_p.y(), value);
+            mls->updateCell(xi, yi, p.z(), 0);
         }
     }
 }
-- 
2.43.0


From 9b375506a923ba454061de3e32654b3ce4387822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 052/159] fix: unknown grid cells were converted to MLS patches

---
 src/operators/GridFloatToMLS.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index c18baf8..b6aef75 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -1,4 +1,5 @@
 #include <envire/operators/GridFloatToMLS.hpp>
+#include <boost/math/special_functions/fpclassify.hpp>
 
 using namespace envire;
 
@@ -53,10 +54,17 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
     Transform grid2mls = mls2grid.inverse( Eigen::Isometry );
     
     boost::multi_array<T, 2>* grid_data;
+    std::pair<T, bool> no_data;
     if (band_name.empty())
+    {
         grid_data = &grid->getGridData();
+        no_data = grid->getNoData();
+    }
     else
+    {
         grid_data = &grid->getGridData(band_name);
+        no_data = grid->getNoData(band_name);
+    }
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
@@ -71,6 +79,10 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
+            // skip cells without information
+            if (!boost::math::isfinite(value) || (no_data.second && value == no_data.first))
+                continue;
+
             Eigen::Vector3d p = grid2mls * Eigen::Vector3d(src_p.x(), src_p.y(), value);
             mls->updateCell(xi, yi, p.z(), 0);
         }
-- 
2.43.0


From 5b95b21411b6bc037c0a3a1f63f953cd4f196519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 053/159] fix: MLSToGrid accepted grids with mismatching size
 or scale

---
 src/operators/MLSToGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From 34718e8aa7060dd24c66879fd220546e358aa39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 054/159] fix: MLSToGrid took free space for surfaces and did
 not report the change

---
 src/operators/MLSToGrid.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index 62569d4..b04a128 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -51,8 +51,13 @@ bool MLSToGrid::updateAll()
     {
         for(size_t y=0;y<height;y++)
         {
-            MLSGrid::const_iterator this_cell = 
-                std::max_element( mls.beginCell(x,y), mls.endCell() );
+            // find the highest patch, free space has no surface
+            MLSGrid::const_iterator this_cell = mls.endCell();
+            for (MLSGrid::const_iterator it = mls.beginCell(x,y); it != mls.endCell(); ++it)
+            {
+                if (!it->isNegative() && (this_cell == mls.endCell() || *this_cell < *it))
+                    this_cell = it;
+            }
             if (this_cell == mls.endCell())
                 continue;
 
@@ -60,5 +65,6 @@ bool MLSToGrid::updateAll()
         }
     }
 
+    env->itemModified(&travGrid);
     return true;
 }
-- 
2.43.0


From 7bdf2fe6fcf29933ded684033fa1c1a16fae449f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 055/159] fix: MLSToGrid used the include guard of MLSSlope

---
 src/operators/MLSToGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.hpp b/src/operators/MLSToGrid.hpp
index 00dd865..3be8208 100644
--- a/src/operators/MLSToGrid.hpp
+++ b/src/operators/MLSToGrid.hpp
@@ -1,5 +1,5 @@
-#ifndef __ENVIRE__MLS_SLOPE_HPP__
-#define __ENVIRE__MLS_SLOPE_HPP__
+#ifndef __ENVIRE__MLS_TO_GRID_HPP__
+#define __ENVIRE__MLS_TO_GRID_HPP__
 
 #include <envire/Core.hpp>
 #include <envire/maps/Grid.hpp>
-- 
2.43.0


From ba43df71fdd113ef8da93d761218edfaade514c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 056/159] fix: MLSToPointCloud ignored the frame of the point
 cloud

---
 src/operators/MLSToPointCloud.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..7299a24 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -38,6 +38,8 @@ bool MLSToPointCloud::updateAll()
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
     
+    const Transform mls2pc = env->relativeTransform( mls_grid, pointcloud );
+
     // create pointcloud from mls
     for(size_t x=0;x<mls_grid->getCellSizeX();x++)
     {
@@ -46,13 +48,13 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
-		Eigen::Vector3d point(cellPosWorld);
+		Eigen::Vector3d point( Eigen::Vector3d::Zero() );
+		mls_grid->fromGrid( x, y, point.x(), point.y() );
 		
 		if(p.isHorizontal())
 		{
-		    point[2] = cellPosWorld.z() + p.mean;
-		    pointcloud->vertices.push_back(point);
+		    point[2] = p.mean;
+		    pointcloud->vertices.push_back( mls2pc * point );
 		    
 		}
 		else if(p.isVertical())
@@ -61,8 +63,8 @@ bool MLSToPointCloud::updateAll()
 		    float max_z = (float)p.getMaxZ(0);
 		    for(float z = min_z; z <= max_z; z += vertical_distance)
 		    {
-			point[2] = cellPosWorld.z() + z;
-			pointcloud->vertices.push_back(point);
+			point[2] = z;
+			pointcloud->vertices.push_back( mls2pc * point );
 		    }
 		}
 	    }
-- 
2.43.0


From d2e5006df2f2bc8849fe5e9d5e16587d902aaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 057/159] fix: colours were hidden when projecting onto an MLS
 grid with content

---
 src/operators/MLSProjection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 461598f..a7efac2 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -61,6 +61,8 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 	t_grid = new MultiLevelSurfaceGrid( 
 		grid->getWidth(), grid->getHeight(), grid->getScaleX(), grid->getScaleY(), grid->getOffsetX(), grid->getOffsetY() );
 	t_grid->getConfig() = grid->getConfig();
+	if( pc->hasData( Pointcloud::VERTEX_COLOR ) )
+	    grid->setHasCellColor( true );
     }
     else
 	t_grid = grid;
-- 
2.43.0


From f3eb713efd6fcddc0f2e6ff4be3aae182a373292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 058/159] fix: projecting a point cloud added empty variances
 to it

---
 src/operators/MLSProjection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index a7efac2..1900ec8 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -178,7 +178,10 @@ void MLSProjection::projectPointcloud( envire::MultiLevelSurfaceGrid* grid, envi
     // note: the grid might actually be a local copy and not attached to an
     // environment
     std::vector<Eigen::Vector3d>& points(pc->vertices);
-    std::vector<double>& uncertainty(pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE));
+    // don't create variances in the input
+    std::vector<double> *uncertainty = NULL;
+    if( pc->hasData( Pointcloud::VERTEX_VARIANCE ) )
+	uncertainty = &pc->getVertexData<double>(Pointcloud::VERTEX_VARIANCE);
     std::vector<Eigen::Vector3d> *color = NULL;
     if( pc->hasData( Pointcloud::VERTEX_COLOR ) )
     {
@@ -186,11 +189,11 @@ void MLSProjection::projectPointcloud( envire::MultiLevelSurfaceGrid* grid, envi
 	assert( color->size() == points.size() );
 	grid->setHasCellColor( true );
     }
-    bool hasUncertainty = points.size() == uncertainty.size();
+    bool hasUncertainty = uncertainty && points.size() == uncertainty->size();
 
     for(size_t i=0;i<points.size();i++)
     {
-	const double p_var = hasUncertainty? uncertainty[i] : defaultUncertainty;
+	const double p_var = hasUncertainty? (*uncertainty)[i] : defaultUncertainty;
 	Point p = C_m2g.getTransform() * points[i];
 
 	const Eigen::Vector3d &mean( p );
-- 
2.43.0


From 16ee2ad87081defeea37d5db1453c7269581ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:06 +0000
Subject: [PATCH 059/159] fix: free space was projected below the line of sight
 for origins below the points

---
 src/operators/MLSProjection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 1900ec8..a687382 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -156,8 +156,8 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 		    else if( ydiff )
 			factor = (int)(line_cells[li].y - origin.y) / (double)ydiff;
 
-		    const double p_height = fabs((cit->height + height) * factor);
-		    const double z_mean = cit->mean + height * factor + plane_z * (1.0 - factor);
+		    const double p_height = (cit->height + fabs(height)) * factor;
+		    const double z_mean = cit->mean + std::max(0.0, height) * factor + plane_z * (1.0 - factor);
 		    const double z_stdev = cit->stdev * factor; 
 
 		    MLSGrid::SurfacePatch np( z_mean, z_stdev, p_height, MLSGrid::SurfacePatch::NEGATIVE );
-- 
2.43.0


From f723c5023ec9ba719419f1b2c1cae3462e13363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:06 +0000
Subject: [PATCH 060/159] fix: DistanceGridToPointcloud crashed without a
 distance grid

---
 src/operators/DistanceGridToPointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/DistanceGridToPointcloud.cpp b/src/operators/DistanceGridToPointcloud.cpp
index 9abeb54..0033d32 100644
--- a/src/operators/DistanceGridToPointcloud.cpp
+++ b/src/operators/DistanceGridToPointcloud.cpp
@@ -37,6 +37,9 @@ bool DistanceGridToPointcloud::updateAll()
 	    dist = dynamic_cast<DistanceGrid*>( *it );
     }
 
+    if( !dist )
+	throw std::runtime_error("DistanceGridToPointcloud needs a DistanceGrid as input.");
+
     DistanceGrid const& distanceGrid = *dist;
     Pointcloud& pointcloud = *env->getOutput< Pointcloud* >(this);
 
-- 
2.43.0


From 848ca1114abd28ed5c530efc52a77823882efaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 061/159] fix: fold operator read beyond the last row and
 column

---
 src/operators/Fold.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index aae1db8..d436681 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -34,7 +34,7 @@ public:
                 size_t yr = ys + y;
                 
                 //no negative check needed, will overflow if negative
-                if(xr > maxX || yr > maxY)
+                if(xr >= maxX || yr >= maxY)
                     continue;
                 
                 cnt++;
-- 
2.43.0


From 0d54cd207b694917af2e61ed75a0757b1a1ac336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:32 +0000
Subject: [PATCH 062/159] fix: refused merge of point clouds left a part of
 them in the target

---
 src/operators/MergePointcloud.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index 65c6a05..ceaefbc 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -51,8 +51,6 @@ void MergePointcloud::setClearOutput( bool clear )
 bool MergePointcloud::updateAll(){
     Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(*env->getOutputs(this).begin());
     assert( targetcloud );
-    if( m_clearOutput )
-	targetcloud->clear();
 
     std::list<Layer*> inputs = env->getInputs(this);
 
@@ -67,6 +65,17 @@ bool MergePointcloud::updateAll(){
 	assert( cloud != targetcloud );
     }
 
+    // don't touch the target if the inputs can't be merged
+    for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
+	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
+	if( (hasNormal && !cloud->hasData( Pointcloud::VERTEX_NORMAL ))
+		|| (hasColor && !cloud->hasData( Pointcloud::VERTEX_COLOR )) )
+	    throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
+    }
+
+    if( m_clearOutput )
+	targetcloud->clear();
+
     //for every cloud
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
@@ -83,9 +92,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasNormal )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_NORMAL ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    Eigen::Quaterniond rot(trans.linear());
 
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
@@ -100,9 +106,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasColor )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_COLOR ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	    std::vector<Eigen::Vector3d> &target_data( targetcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 
-- 
2.43.0


From 8f85058a7c1dc7a0fa3377d314de1ddbcfe4d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:46 +0000
Subject: [PATCH 063/159] fix: free space was projected again as if it had been
 measured

---
 src/operators/MLSProjection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index a687382..5530889 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -54,10 +54,12 @@ void MLSProjection::unsetAreaOfInterest()
 void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceGrid* grid, envire::Pointcloud* pc )
 {
     // create a new grid with the same dimensions in case the given grid is not
-    // empty
+    // empty, or free space will be added to it while going through the cells
     boost::intrusive_ptr<envire::MultiLevelSurfaceGrid> t_grid;
-    if( !grid->empty() )
+    if( !grid->empty() || m_negativeInformation )
     {
+	if( grid->empty() )
+	    grid->initIndex();
 	t_grid = new MultiLevelSurfaceGrid( 
 		grid->getWidth(), grid->getHeight(), grid->getScaleX(), grid->getScaleY(), grid->getOffsetX(), grid->getOffsetY() );
 	t_grid->getConfig() = grid->getConfig();
-- 
2.43.0


From 7f5de3d16954f38f0126ce08cbd4d4e7b7d8a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 064/159] fix: TraversabilityClass reported being set the wrong
 way round

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From a58ec8ed073a77ceb96b2f8b9591e1bf8b0ededf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 065/159] fix: statistics of traversability class 255 were
 written out of bounds

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 src/maps/TraversabilityGrid.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..cfe6e42 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..7a22546 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,8 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From a7c69179775592e29dc9a73c1bd83af565e93c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 066/159] fix: copies of a TraversabilityGrid accessed the
 cells of the original

---
 src/maps/TraversabilityGrid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 7a22546..531e7b1 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,11 @@ public:
     {
     };
 
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other), traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 173abe487ba6be4f035834ca6bc231573202e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 067/159] fix: cells with an unregistered traversability class
 were looked up out of bounds

---
 src/maps/TraversabilityGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index cfe6e42..6692de9 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -167,7 +167,7 @@ void TraversabilityGrid::setTraversability(uint8_t klass, size_t x, size_t y)
 const TraversabilityClass& TraversabilityGrid::getTraversability(size_t x, size_t y) const
 {
     setTraversabilityArray();
-    return traversabilityClasses[(*traversabilityArray)[y][x]];
+    return getTraversabilityClass((*traversabilityArray)[y][x]);
 }
 
 bool TraversabilityGrid::registerNewTraversabilityClass(uint8_t& retId, const TraversabilityClass& klass)
-- 
2.43.0


From bf7c12890190a3918bce68ccc3e9e6c94ee1d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 068/159] fix: probabilities of the traversability grid
 decreased when written back

---
 src/maps/TraversabilityGrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 6692de9..067ce2a 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -234,7 +234,8 @@ void TraversabilityGrid::setProbability(double probability, size_t x, size_t y)
 {
     setProbabilityArray();
 
-    const uint8_t probVal = std::min<uint32_t>(std::numeric_limits< uint8_t >::max(), probability * std::numeric_limits< uint8_t >::max());
+    const double maxVal = std::numeric_limits< uint8_t >::max();
+    const uint8_t probVal = rint(std::max(0.0, std::min(maxVal, probability * maxVal)));
 
     (*probabilityArray)[y][x] = probVal;
 }
-- 
2.43.0


From 370ed621eb6f0302117995b972cf8803cab2602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 069/159] fix: undefined traversability classes became
 obstacles when loaded

---
 src/maps/TraversabilityGrid.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 067ce2a..ea80c28 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -252,6 +252,9 @@ void TraversabilityGrid::serialize(Serialization& so)
     so.write<size_t>(std::string("drivabilityClassCount"), traversabilityClasses.size());
     for(size_t i = 0; i < traversabilityClasses.size(); i++)
     {
+        // placeholders stay undefined
+        if(!traversabilityClasses[i].isSet())
+            continue;
         so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
     }
     envire::Grid< uint8_t >::serialize(so);
@@ -260,12 +263,17 @@ void TraversabilityGrid::serialize(Serialization& so)
 void TraversabilityGrid::unserialize(Serialization& so)
 {
     envire::Grid< uint8_t >::unserialize(so);
+    // the arrays might have been replaced
+    traversabilityArray = NULL;
+    probabilityArray = NULL;
     size_t traversabilityClassCount = 0;
     so.read<size_t>(std::string("drivabilityClassCount"), traversabilityClassCount);
+    traversabilityClasses.assign(traversabilityClassCount, TraversabilityClass());
     for(size_t i = 0; i < traversabilityClassCount; i++)
     {
+        const std::string key = std::string("drivability") + boost::lexical_cast< std::string>((int) i);
         double drivability;
-        if(so.read(std::string("drivability") + boost::lexical_cast< std::string>((int) i), drivability))
+        if(so.hasKey(key) && so.read(key, drivability))
             setTraversabilityClass(i, TraversabilityClass(drivability));
     }
 }
-- 
2.43.0


From 9a6c4120d3d778be716035bc825a5e6e4fe0c573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 070/159] fix: distances in statistics of non square or rotated
 cells were looked up out of bounds

---
 src/maps/TraversabilityGrid.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index ea80c28..29b9f92 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -1,6 +1,5 @@
 #include "TraversabilityGrid.hpp"
 #include <boost/bind.hpp>
-#include <tools/RadialLookUpTable.hpp>
 #include <tools/BoxLookUpTable.hpp>
 #include <Eigen/Geometry>
 
@@ -15,7 +14,6 @@ const std::vector<std::string> TraversabilityGrid::bands = { TraversabilityGrid:
 
 class StatisticHelper
 {
-    static RadialLookUpTable *lut;
     static BoxLookUpTable *boxLut;
     const base::Pose2D &pose;
     Eigen::Rotation2D<double> inverseOrientation;
@@ -25,30 +23,24 @@ class StatisticHelper
     TraversabilityStatistic *outerStats;
     double scaleX;
     double scaleY;
-    size_t xCenter;
-    size_t yCenter;
 public:
     EIGEN_MAKE_ALIGNED_OPERATOR_NEW
     StatisticHelper(const base::Pose2D &pose, const TraversabilityGrid &grid, double sizeX, double sizeY, double borderWidth) : pose(pose),
     inverseOrientation(Eigen::Rotation2D<double>(pose.orientation).inverse()), grid(grid), gridData(grid.getGridData(TraversabilityGrid::TRAVERSABILITY))
     , scaleX(grid.getScaleX()), scaleY(grid.getScaleY())
     {
-        if(!lut)
-            lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
-
         if(!boxLut)
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
         boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
-
-        grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
 
     void addInnerVal(size_t x, size_t y)
     {
-        innerStats->addMeasurement(gridData[y][x], lut->getDistance(x-xCenter, y-yCenter));
+        Vector2d pos_map;
+        grid.fromGrid(x, y, pos_map.x(), pos_map.y());
+        innerStats->addMeasurement(gridData[y][x], (pos_map - pose.position).norm());
     }
 
     void addOuterVal(size_t x, size_t y)
@@ -70,7 +62,6 @@ public:
     }
 };
 
-RadialLookUpTable *StatisticHelper::lut;
 BoxLookUpTable *StatisticHelper::boxLut;
 
 void addVal(size_t x, size_t y, std::vector<uint8_t> &stats, const TraversabilityGrid::ArrayType &gridData)
-- 
2.43.0


From 142e4f3d0209536c7b4dc049f6a4d89c97b5a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 071/159] fix: statistics failed for borders narrower than a
 cell

---
 src/maps/TraversabilityGrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index 29b9f92..24c2747 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -33,7 +33,9 @@ public:
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
-        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
+        //the centers of the cells at the border may be outside of the border
+        const double cellSize = sqrt(scaleX * scaleX + scaleY * scaleY);
+        boxLut->recompute(std::min(scaleX, scaleY) / 10.0, sizeX, sizeY, std::max(borderWidth * 2, borderWidth + cellSize));
     }
 
     void addInnerVal(size_t x, size_t y)
-- 
2.43.0


From f59d3ec6d15829fa55ee8198bc3ab1f81b057007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:09 +0000
Subject: [PATCH 072/159] fix: growing traversability classes accessed
 undefined classes and did not report the change

---
 src/operators/TraversabilityGrowClasses.cpp | 10 +++++-----
 src/operators/TraversabilityGrowClasses.hpp |  4 ++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 405dc2f..67d5fb0 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -31,7 +31,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     TraversabilityGrid::ArrayType& trDataOut = mapOut.getGridData(TraversabilityGrid::TRAVERSABILITY);
     TraversabilityGrid::ArrayType& probDataOut = mapOut.getGridData(TraversabilityGrid::PROBABILITY);
 
-    if(trDataIn.num_elements() != trDataOut.num_elements())
+    if(mapIn.getCellSizeX() != mapOut.getCellSizeX() || mapIn.getCellSizeY() != mapOut.getCellSizeY())
         throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
 
     memcpy(trDataOut.data(), trDataIn.data(), sizeof(uint8_t) * trDataIn.num_elements());
@@ -42,7 +42,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     assert(trDataOut.shape()[0] == mapIn.getCellSizeY());
     assert(trDataOut.shape()[1] == mapIn.getCellSizeX());
     
-    const std::vector<TraversabilityClass> &classes(grid->getTraversabilityClasses());
+    const std::vector<TraversabilityClass> &classes(mapIn.getTraversabilityClasses());
     
     int i = 0;
     for(std::vector<TraversabilityClass>::const_iterator it = classes.begin(); it != classes.end(); it++)
@@ -61,7 +61,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                 continue;
             
             uint8_t classNumber = trDataIn[y][x];
-            TraversabilityClass curClass(classes[classNumber]);
+            const TraversabilityClass &curClass(mapIn.getTraversabilityClass(classNumber));
 
             //grow all object in the radius
             for( int oy = -wy; oy <= wy; ++oy )
@@ -74,9 +74,8 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
                             && tx >= 0 && tx < (int)mapIn.getCellSizeX()
                             && ty >= 0 && ty < (int)mapIn.getCellSizeY() )
                     {
-                        TraversabilityClass otherClass(classes[trDataOut[ty][tx]]);
                         if((mapOut.getProbability(tx, ty) <= 0.0001)
-                           || (otherClass.getDrivability() > curClass.getDrivability()))
+                           || (mapIn.getTraversabilityClass(trDataOut[ty][tx]).getDrivability() > curClass.getDrivability()))
                         {
                             trDataOut[ty][tx] = classNumber;
                             mapOut.setProbability(curProbability, tx, ty);
@@ -99,6 +98,7 @@ bool envire::TraversabilityGrowClasses::updateAll()
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
     growTerrains(*grid, *gridOut);
+    env->itemModified(gridOut);
     
     return envire::Operator::updateAll();
 }
diff --git a/src/operators/TraversabilityGrowClasses.hpp b/src/operators/TraversabilityGrowClasses.hpp
index 27b6d3c..f74ea01 100644
--- a/src/operators/TraversabilityGrowClasses.hpp
+++ b/src/operators/TraversabilityGrowClasses.hpp
@@ -9,6 +9,10 @@ class TraversabilityGrowClasses : public envire::Operator
 {
     ENVIRONMENT_ITEM( TraversabilityGrowClasses );
 public:
+    TraversabilityGrowClasses() : grid(NULL), gridOut(NULL), radius(0)
+    {
+    }
+
     virtual bool updateAll();
     
     void setRadius(double radius);
-- 
2.43.0


From 0836b05a4d548dc0cb822b6edb5c863b9f2da629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:24 +0000
Subject: [PATCH 073/159] fix: merging gave the normals and colours of new
 points to the ones kept in the target

---
 src/operators/MergePointcloud.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index ceaefbc..79be639 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -65,7 +65,22 @@ bool MergePointcloud::updateAll(){
 	assert( cloud != targetcloud );
     }
 
+    // content that is kept counts as well
+    const bool keepTarget = !m_clearOutput && !targetcloud->vertices.empty();
+    bool keptNormal = false, keptColor = false;
+    if( keepTarget )
+    {
+	keptNormal = targetcloud->hasData( Pointcloud::VERTEX_NORMAL )
+	    && !targetcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).empty();
+	keptColor = targetcloud->hasData( Pointcloud::VERTEX_COLOR )
+	    && !targetcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).empty();
+	hasNormal = hasNormal || keptNormal;
+	hasColor = hasColor || keptColor;
+    }
+
     // don't touch the target if the inputs can't be merged
+    if( keepTarget && (hasNormal != keptNormal || hasColor != keptColor) )
+	throw std::runtime_error("merge currently needs to have the same metadata on inputs and kept output");
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
 	if( (hasNormal && !cloud->hasData( Pointcloud::VERTEX_NORMAL ))
-- 
2.43.0


From 5795505d2a7a8c4366b56d3173c296e8ffbbfad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:24 +0000
Subject: [PATCH 074/159] fix: fold operator did not report the change of its
 output

---
 src/operators/Fold.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index d436681..91d6985 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -76,6 +76,7 @@ public:
             }
         }
         
+        env->itemModified(outputGrid);
         return true;
     }
     
-- 
2.43.0


From 02a7742a44284fa475bbd3ad8cf9732961386467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:24 +0000
Subject: [PATCH 075/159] fix: CutPointcloud accessed missing in- and outputs

---
 src/operators/CutPointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index c33d87b..6b9c2b2 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -69,6 +69,9 @@ bool CutPointcloud::isIncluded(const Eigen::Vector3d &vector)
 }
 
 bool CutPointcloud::updateAll(){
+    if( env->getOutputs(this).empty() || env->getInputs(this).empty() )
+        throw std::runtime_error("CutPointcloud needs an input and an output.");
+
     Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(env->getOutputs(this).front());
     assert( targetcloud );
     targetcloud->clear();
-- 
2.43.0


From 5f94cf004e2701f22c44acfbb5e809ab009cc899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:24 +0000
Subject: [PATCH 076/159] fix: MergePointcloud accessed a missing output

---
 src/operators/MergePointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index 79be639..3dfa6f6 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -49,6 +49,9 @@ void MergePointcloud::setClearOutput( bool clear )
 }
 
 bool MergePointcloud::updateAll(){
+    if( env->getOutputs(this).empty() )
+	throw std::runtime_error("MergePointcloud needs an output.");
+
     Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(*env->getOutputs(this).begin());
     assert( targetcloud );
 
-- 
2.43.0


From d54ec7deadd10a496521b7eb53c8ddb1c3359116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 077/159] fix: MLSSlope used an undefined window size

---
 src/operators/MLSSlope.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index 3ff5d78..e741cd4 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -33,12 +33,15 @@ namespace envire
             , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev) 
             : corrected_step_threshold(corrected_step_threshold)
-            , use_stddev(use_stddev) {}
+            , use_stddev(use_stddev)
+            , required_measurements_per_patch(0)
+            , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev, 
                  uint32_t required_measurements_per_patch) 
             : corrected_step_threshold(corrected_step_threshold)
             , use_stddev(use_stddev)
-            , required_measurements_per_patch(required_measurements_per_patch) {}
+            , required_measurements_per_patch(required_measurements_per_patch)
+            , window_size(1) {}
 	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
 	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
 
-- 
2.43.0


From 0a0b761a0841533b91a806e18736944060e09590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 078/159] fix: MLSSlope accepted grids with mismatching size or
 scale

---
 src/operators/MLSSlope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 0028e7e..e502b09 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -73,9 +73,9 @@ bool MLSSlope::updateAll()
     Grid<float>& travGrid = *env->getOutput< Grid<float>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From f28bf7ef2dc96c77c00b29493f412392d93d9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 079/159] fix: MLSSlope took free space for surfaces

---
 src/operators/MLSSlope.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index e502b09..7aa37fd 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -11,6 +11,18 @@ ENVIRONMENT_ITEM_DEF( MLSSlope )
 
 static double const UNKNOWN = -std::numeric_limits<double>::infinity();
     
+/** Returns the highest surface of the cell, free space has none */
+static MLSGrid::const_iterator topSurface(MLSGrid const& mls, int x, int y)
+{
+    MLSGrid::const_iterator result = mls.endCell();
+    for (MLSGrid::const_iterator it = mls.beginCell(x, y); it != mls.endCell(); ++it)
+    {
+        if (!it->isNegative() && (result == mls.endCell() || *result < *it))
+            result = it;
+    }
+    return result;
+}
+
 static void updateGradient(MLSGrid const& mls,
         bool use_stddev,
         boost::multi_array<float,2>& mean_angles,
@@ -22,8 +34,7 @@ static void updateGradient(MLSGrid const& mls,
         MLSGrid::const_iterator this_cell,
         uint32_t required_measurements_per_patch = 0)
 {
-    MLSGrid::const_iterator neighbour_cell = 
-        std::max_element( mls.beginCell(other_x,other_y), mls.endCell() );
+    MLSGrid::const_iterator neighbour_cell = topSurface(mls, other_x, other_y);
 
     // Neighbour cells with too little measurements will be ignored as well.
     if( neighbour_cell != mls.endCell() && 
@@ -131,8 +142,7 @@ bool MLSSlope::updateAll()
     {
         for(size_t y=1;y<height-1;y++)
         {
-            MLSGrid::const_iterator this_cell = 
-                std::max_element( mls.beginCell(x,y), mls.endCell() );
+            MLSGrid::const_iterator this_cell = topSurface(mls, x, y);
             if (this_cell == mls.endCell())
             {
                 angles[y][x] = UNKNOWN;
@@ -174,8 +184,7 @@ bool MLSSlope::updateAll()
                     if((rx < 0) || (rx >= (int) width) || (ry < 0) || (ry >= (int) height) )
                         continue;
                     
-                    MLSGrid::const_iterator neighbour_cell = 
-                        std::max_element( mls.beginCell(rx,ry), mls.endCell() );
+                    MLSGrid::const_iterator neighbour_cell = topSurface(mls, rx, ry);
 
                     if( neighbour_cell != mls.endCell() )
                     {
-- 
2.43.0


From ff13b932c31008aa02337cc90c8cf10084269b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 080/159] fix: slopes were computed from patches with too few
 measurements

---
 src/operators/MLSSlope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 7aa37fd..154b213 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -186,7 +186,8 @@ bool MLSSlope::updateAll()
                     
                     MLSGrid::const_iterator neighbour_cell = topSurface(mls, rx, ry);
 
-                    if( neighbour_cell != mls.endCell() )
+                    if( neighbour_cell != mls.endCell() &&
+                            neighbour_cell->getMeasurementCount() >= required_measurements_per_patch )
                     {
                         count++;
                         Vector3d input(xi * mls.getScaleX(), yi * mls.getScaleY(), thisHeight - neighbour_cell->mean);
-- 
2.43.0


From cb6b526c0456fe05fc199ff98f8f454246de4178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 081/159] fix: steps towards the border of the grid were left
 out by MLSSlope

---
 src/operators/MLSSlope.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 154b213..9d83513 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -34,6 +34,10 @@ static void updateGradient(MLSGrid const& mls,
         MLSGrid::const_iterator this_cell,
         uint32_t required_measurements_per_patch = 0)
 {
+    // there is nothing beyond the border
+    if( other_x < 0 || other_y < 0 || other_y >= (int)mls.getHeight() )
+        return;
+
     MLSGrid::const_iterator neighbour_cell = topSurface(mls, other_x, other_y);
 
     // Neighbour cells with too little measurements will be ignored as well.
@@ -138,9 +142,10 @@ bool MLSSlope::updateAll()
         BOTTOM_RIGHT = 6,
         TOP_LEFT = 7;
 
-    for(size_t x=1;x<width;x++)
+    // the cells at the border contribute to the steps of the others
+    for(size_t x=0;x<width;x++)
     {
-        for(size_t y=1;y<height-1;y++)
+        for(size_t y=0;y<height;y++)
         {
             MLSGrid::const_iterator this_cell = topSurface(mls, x, y);
             if (this_cell == mls.endCell())
-- 
2.43.0


From 85711d3f71e3e6f74fcff00c86dca8fed066026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 082/159] fix: MLSSlope did not report the change of its output

---
 src/operators/MLSSlope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 9d83513..d1e1e0f 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -272,5 +272,6 @@ bool MLSSlope::updateAll()
         corrected_max_steps[y][width-1] = UNKNOWN;
     }
 
+    env->itemModified(&travGrid);
     return true;
 }
-- 
2.43.0


From 0592e051736aba990f6d551d148f805c0b2f06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 083/159] fix: SimpleTraversability kept results of former
 updates for unknown cells

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..dc60391 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -121,6 +121,9 @@ bool SimpleTraversability::updateAll()
         output_layer->getGridData() :
         output_layer->getGridData(output_band);
 
+    // do not keep the result of the last update
+    std::fill(result.data(), result.data() + result.num_elements(), CLASS_UNKNOWN);
+
     if (output_band.empty())
         output_layer->setNoData(CLASS_UNKNOWN);
     else
-- 
2.43.0


From ed3449b8d546f0dbff63ce222bb1c4820b71414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 084/159] fix: obstacle clearance of SimpleTraversability was
 not saved

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index dc60391..3b3be39 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,8 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 43a56cd3fad4b0fc92260e9f95fbe6e755dd320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 085/159] fix: grown obstacles had no probability

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 3b3be39..8bd51b3 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -419,7 +419,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From 6a392a83fff3b21b88ee8c6ad6f8477b09bebcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 086/159] fix: post processing of SimpleTraversability ignored
 the given band

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 8bd51b3..185e10a 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -394,7 +394,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 
     OutputLayer::ArrayType& orig_data = band_name.empty() ?
         map.getGridData() :
-        map.getGridData(output_band);
+        map.getGridData(band_name);
 
     OutputLayer::ArrayType data( orig_data );
     TraversabilityGrid::ArrayType &probabilityArray(map.getGridData(TraversabilityGrid::PROBABILITY));
@@ -457,7 +457,7 @@ void SimpleTraversability::closeNarrowPassages(SimpleTraversability::OutputLayer
 
     OutputLayer::ArrayType& data = band_name.empty() ?
         map.getGridData() :
-        map.getGridData(output_band);
+        map.getGridData(band_name);
     for (unsigned int y = 0; y < map.getHeight(); ++y)
     {
         for (unsigned int x = 0; x < map.getWidth(); ++x)
-- 
2.43.0


From 64f4eafeced5b1cf99db5e61edf775dcbac6aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 087/159] fix: SimpleTraversability failed for less than five
 classes

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 185e10a..00d2245 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -265,8 +265,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // The mean of the driveabilities of the custom classes (0.55 for ten classes).
+    double mean_driveability = (1.0 / conf.class_count + 1.0) / 2.0;
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From 4c5fc001bf4e554a3f77de034be9b927171b24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 088/159] fix: SimpleTraversability read beyond smaller inputs

---
 src/operators/SimpleTraversability.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 00d2245..2119b3f 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -146,6 +146,10 @@ bool SimpleTraversability::updateAll()
         if (input_layers_id[i] != "" && !input_bands[i].empty())
         {
             input_layers[i] = getEnvironment()->getItem< Grid<float> >(input_layers_id[i]).get();
+            if (!input_layers[i])
+                throw std::runtime_error("SimpleTraversability: the input layer " + input_layers_id[i] + " does not exist");
+            if (input_layers[i]->getWidth() != output_layer->getWidth() || input_layers[i]->getHeight() != output_layer->getHeight())
+                throw std::runtime_error("SimpleTraversability: mismatching width and/or height between input and output");
             has_data = true;
             inputs[i] = &(input_layers[i]->getGridData(input_bands[i]));
 
-- 
2.43.0


From b9aed85ec1ce9c9ec5bd62a09850f9a5366cbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 089/159] fix: cells without a number were classified by
 SimpleTraversability

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 2119b3f..a1af27a 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -185,7 +185,7 @@ bool SimpleTraversability::updateAll()
                     continue;
 
                 double value = (*inputs[band_idx])[y][x];
-                if (value != input_unknown[band_idx])
+                if (value != input_unknown[band_idx] && !std::isnan(value))
                 {
                     values[band_idx] = value;
                     has_value[band_idx] = true;
-- 
2.43.0


From 3f055a6257a2190f76c158939cfb2fcf99659187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:02 +0000
Subject: [PATCH 090/159] fix: SimpleTraversability did not report the change
 of its output

---
 src/operators/SimpleTraversability.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index a1af27a..3ad6100 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -291,6 +291,7 @@ bool SimpleTraversability::updateAll()
     }
     LOG_INFO(ss.str().c_str());
 
+    env->itemModified(output_layer);
     return true;
 }
 
-- 
2.43.0


From c1732aa4848c234c2c1e7559bd3660e020436f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 091/159] fix: grassfire started at the wrong patch because of
 the sign of its deviation

---
 src/operators/TraversabilityGrassfire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 396aa5f..97875fa 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -268,7 +268,7 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
                     SurfacePatch *curPatch = getNearestPatchWhereRobotFits(newX, newY, startPos.z(), isObstacle);
                     if(curPatch)
                     {
-                        double curHeightDiff = fabs(startPos.z() - curPatch->getMean() + curPatch->getStdev());
+                        double curHeightDiff = fabs(startPos.z() - (curPatch->getMean() + curPatch->getStdev()));
                         if(curHeightDiff < bestHeightDiff)
                         {
                             bestMatchingPatch = curPatch;
-- 
2.43.0


From 41218ff0ef09078aedc580d1f1e0fe1fabbc65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 092/159] fix: height of the start position was not transformed
 into the frame of the map

---
 src/operators/TraversabilityGrassfire.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 97875fa..a678a09 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -223,7 +223,9 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
 {
     size_t startX;
     size_t startY;
-    if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
+    //the heights of the patches are given in the frame of the map
+    startPos = mlsGrid->toMap(startPos, *mlsGrid->getEnvironment()->getRootNode());
+    if(!mlsGrid->toGrid(startPos.x(), startPos.y(), startX, startY))
         return false;
 
     
-- 
2.43.0


From 1ff14312e36cbd0d6bdca32189e541acbfff4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 093/159] fix: grassfire took free space for surfaces

---
 src/operators/TraversabilityGrassfire.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index a678a09..716357a 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -310,6 +310,10 @@ SurfacePatch* TraversabilityGrassfire::getNearestPatchWhereRobotFits(size_t x, s
     MLSGrid::iterator itEnd = mlsGrid->endCell();
     for(; it != itEnd; it++)
     {
+        //free space is no surface
+        if(it->isNegative())
+            continue;
+
         //HACK filter outliers
         if(it->getMeasurementCount() < config.outliertFilterMinMeasurements && it->getStdev() > config.outliertFilterMaxStdDev)
         {
@@ -374,6 +378,10 @@ SurfacePatch* TraversabilityGrassfire::getNearestPatchWhereRobotFits(size_t x, s
         
         for(; hcIt != hcItEnd; hcIt++)
         {
+            //free space doesn't block
+            if(hcIt->isNegative())
+                continue;
+
             //HACK filter outliers
             if(hcIt->getMeasurementCount() < config.outliertFilterMinMeasurements && hcIt->getStdev() > config.outliertFilterMaxStdDev)
             {
-- 
2.43.0


From 884573c46b2c624226096d3efd5361d39c3e8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 094/159] fix: grassfire wrote beyond outputs of another size

---
 src/operators/TraversabilityGrassfire.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 716357a..3519ced 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -441,6 +441,8 @@ bool envire::TraversabilityGrassfire::updateAll()
     if (!trGrid)
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
+    if(mlsGrid->getCellSizeX() != trGrid->getCellSizeX() || mlsGrid->getCellSizeY() != trGrid->getCellSizeY())
+        throw std::runtime_error("TraversabilityGrassfire: in- and output have different sizes");
     
     trData = &(trGrid->getGridData(TraversabilityGrid::TRAVERSABILITY));
 
-- 
2.43.0


From 89cc06c6d4975bd9e408fe813e3311add39e3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 095/159] fix: grassfire returned failure and did not report
 its change

---
 src/operators/TraversabilityGrassfire.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 3519ced..a18db8e 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -477,5 +477,6 @@ bool envire::TraversabilityGrassfire::updateAll()
     std::cout << "totalCnt " << totalCnt << std::endl;
     std::cout << "drivable " << drivable << std::endl;*/
         
-    return envire::Operator::updateAll();
+    env->itemModified(trGrid);
+    return true;
 }
-- 
2.43.0


From 8caf73b8835c2ab256acd3df92b3b7f4c14cc0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 096/159] fix: growing traversability classes returned failure

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 67d5fb0..7efc36d 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -100,5 +100,5 @@ bool envire::TraversabilityGrowClasses::updateAll()
     growTerrains(*grid, *gridOut);
     env->itemModified(gridOut);
     
-    return envire::Operator::updateAll();
+    return true;
 }
-- 
2.43.0


From 7deb9182b84b1d88918b94d8cbdbe932848ca14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:06 +0000
Subject: [PATCH 097/159] fix: SimpleTraversability::getOutputBand was not
 implemented

---
 src/operators/SimpleTraversability.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 3ad6100..b265281 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -107,6 +107,7 @@ void SimpleTraversability::setMaxStep(Grid<float>* grid, std::string const& band
     input_bands[MAX_STEP] = band_name;
 }
 
+std::string SimpleTraversability::getOutputBand() const { return output_band; }
 void SimpleTraversability::setOutput(OutputLayer* grid, std::string const& band_name)
 {
     removeOutputs();
-- 
2.43.0


From 62dd050643ac4a1924dc22743d0fafe1b08a2cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 098/159] fix: elevations of cells were looked up at the metric
 position given by the cell index

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..47f0485 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return Grid<double>::getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return Grid<double>::getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From 5571206a02594b6df8c4c9a0f04bbe2d217c0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 099/159] fix: normals of cells at the border of an
 ElevationGrid were computed from values beyond it

---
 src/maps/ElevationGrid.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..8155fc0 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -14,10 +14,17 @@ const std::vector<std::string> ElevationGrid::bands = { ElevationGrid::ELEVATION
 Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Position& pos) const
 {
     size_t m = pos.x, n = pos.y;
+    if (!contains(pos))
+        throw std::runtime_error("provided position is out of the grid");
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+
+    // cells at the border have a neighbour on one side only
+    size_t left = m > 0 ? m-1 : m, right = m+1 < getCellSizeX() ? m+1 : m;
+    size_t bottom = n > 0 ? n-1 : n, top = n+1 < getCellSizeY() ? n+1 : n;
+
+    double slope_x = right > left ? (grid[n][left] - grid[n][right]) / (getScaleX()*(right-left)) : 0;
+    double slope_y = top > bottom ? (grid[bottom][m] - grid[top][m]) / (getScaleY()*(top-bottom)) : 0;
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0


From 6c0941b3b3e98ea4b418d2125e9ce9305513336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 100/159] fix: GridIllumination accessed a missing output and
 did not report the change

---
 src/operators/GridIllumination.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index d3b9ed6..1497ea0 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -15,6 +15,8 @@ bool GridIllumination::updateAll()
 {
     // get output grid
     ElevationGrid* grid = getOutput<envire::ElevationGrid*>();
+    if( !grid )
+	throw std::runtime_error("GridIllumination needs an ElevationGrid as output");
 
     // and get the array
     ElevationGrid::ArrayType &harray = grid->getGridData( ElevationGrid::ELEVATION_MAX );
@@ -103,6 +105,7 @@ bool GridIllumination::updateAll()
 	}
     }
 
+    env->itemModified( grid );
     return true;
 }
 
-- 
2.43.0


From bb6b611d8ef6b6793b06bce5676b6a12ce2c655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 101/159] fix: light along an axis of the grid was traced into
 the wrong direction

---
 src/operators/GridIllumination.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index 1497ea0..6338b99 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -1,4 +1,5 @@
 #include "GridIllumination.hpp"
+#include <limits>
 #include <envire/maps/ElevationGrid.hpp>
 
 using namespace envire;
@@ -56,10 +57,12 @@ bool GridIllumination::updateAll()
 	    int 
 		stepx = dir.x() > 0 ? 1 : -1,
 		stepy = dir.y() > 0 ? 1 : -1;
-	    // this is the distance along the ray until a new cell is reached
+	    // this is the distance along the ray until a new cell is reached,
+	    // which never happens for rays parallel to an axis
+	    const double never = std::numeric_limits<double>::infinity();
 	    const double 
-		deltax = (dir / dir.x() * grid->getScaleX()).norm(),
-		deltay = (dir / dir.y() * grid->getScaleY()).norm();
+		deltax = dir.x() != 0 ? (dir / dir.x() * grid->getScaleX()).norm() : never,
+		deltay = dir.y() != 0 ? (dir / dir.y() * grid->getScaleY()).norm() : never;
 	    // starting distance until a new cell is reached.
 	    // since we start in the center of the cell, this is half the 
 	    // deltax, and deltay
-- 
2.43.0


From 6d94d014d71b8b9a9372a05393fc260488c41573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 102/159] fix: cells behind the light source shadowed the cells
 in front of it

---
 src/operators/GridIllumination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index 6338b99..e8cdb3b 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -71,7 +71,8 @@ bool GridIllumination::updateAll()
 		maxy = deltay * 0.5; 
 
 	    double maxLight = 0.0; 
-	    while( true )
+	    // only what is between the cell and the light source can shadow it
+	    while( std::min( maxx, maxy ) < dir.norm() )
 	    {
 		// advance to next cell
 		if( maxx < maxy )
-- 
2.43.0


From 9b6dee9fefbdc556b5de4878f0ff8a7bfa4b3cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 103/159] fix: VoxelTraversal left the cells of the ray

---
 src/tools/VoxelTraversal.hpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/tools/VoxelTraversal.hpp b/src/tools/VoxelTraversal.hpp
index 33194f1..9217c08 100644
--- a/src/tools/VoxelTraversal.hpp
+++ b/src/tools/VoxelTraversal.hpp
@@ -1,6 +1,9 @@
 #ifndef ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 #define ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 
+#include <limits>
+#include <envire/maps/GridBase.hpp>
+
 namespace envire
 {
 
@@ -43,19 +46,24 @@ public:
 	envire::GridBase::Position pos;
 	double xmod, ymod;
 	valid = grid.toGrid( orig.x(), orig.y(), pos.x, pos.y, xmod, ymod );
-	cx = pos.x;
-	cy = pos.y;
+	cx = valid ? (int)pos.x : 0;
+	cy = valid ? (int)pos.y : 0;
 
 	stepx = dir.x() > 0 ? 1 : -1;
 	stepy = dir.y() > 0 ? 1 : -1;
 
 	// this is the distance along the ray until a new cell is reached
-	deltax = (dir / dir.x() * grid.getScaleX()).norm();
-	deltay = (dir / dir.y() * grid.getScaleY()).norm();
+	// which never happens for rays parallel to an axis
+	const double never = std::numeric_limits<double>::infinity();
+	deltax = dir.x() != 0 ? (dir / dir.x() * grid.getScaleX()).norm() : never;
+	deltay = dir.y() != 0 ? (dir / dir.y() * grid.getScaleY()).norm() : never;
+
+	if( !valid )
+	    return;
 
 	// starting distance until a new cell is reached.
-	maxx = deltax * xmod;
-	maxy = deltay * ymod; 
+	maxx = dir.x() != 0 ? deltax * (stepx > 0 ? 1.0 - xmod / grid.getScaleX() : xmod / grid.getScaleX()) : never;
+	maxy = dir.y() != 0 ? deltay * (stepy > 0 ? 1.0 - ymod / grid.getScaleY() : ymod / grid.getScaleY()) : never;
     }
 
     Eigen::Vector3d getPosition()
@@ -65,8 +73,14 @@ public:
 
     bool step( GridBase::Position &pos )
     {
+	// vertical rays never leave their cell
+	if( valid && maxx == maxy && maxx == std::numeric_limits<double>::infinity() )
+	    valid = false;
+
 	// advance to next cell
-	if( maxx < maxy )
+	if( !valid )
+	    ;
+	else if( maxx < maxy )
 	{
 	    maxx += deltax;
 	    cx += stepx;
-- 
2.43.0


From 9378355c5117b6d3aff61f68b841d149098d4ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:40 +0000
Subject: [PATCH 104/159] fix: grid access only ever evaluated the last grid
 after a first miss

---
 src/tools/GridAccess.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 6165fb9..48d27b0 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -42,11 +42,6 @@ struct GridAccess::GridAccessImpl
 	{
 	    if( evalGridPoint( position ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
@@ -212,11 +207,6 @@ struct MLSAccess::MLSAccessImpl
 	    zpos = v.z();
 	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
-- 
2.43.0


From bac32ef63360bf88c3089176ff3b4a3dbe842036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:36 +0000
Subject: [PATCH 105/159] fix: MLSAccess gave the elevation in the frame of the
 grid

---
 src/tools/GridAccess.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 48d27b0..e5fe3e1 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -196,6 +196,7 @@ struct MLSAccess::MLSAccessImpl
     MLSGrid* grid;
 
     Transform t;
+    double z_offset;
 
     bool getElevation(Eigen::Vector3d position, double& zpos, double& zstdev  )
     {
@@ -206,7 +207,10 @@ struct MLSAccess::MLSAccessImpl
 	    Eigen::Vector3d v = t * position;
 	    zpos = v.z();
 	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
+	    {
+		zpos += z_offset;
 		return true;
+	    }
 	}
 
 	if( grids.size() == 0 )
@@ -222,11 +226,15 @@ struct MLSAccess::MLSAccessImpl
 
 	    grid = lgrid;
 	    t = lt;
+	    z_offset = t.inverse(Eigen::Isometry)(2,3);
 
 	    Eigen::Vector3d v = t * position;
 	    zpos = v.z();
 	    if( grid->get( (const Eigen::Vector2d&)(v).head<2>(), zpos, zstdev ) )
+	    {
+		zpos += z_offset;
 		return true;
+	    }
 	}
 
 	return false;
-- 
2.43.0


From 430fc5d8d3cbf1cc6b7e46087e965964a0696bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 106/159] fix: extents of map segments were empty for two
 dimensional maps

---
 src/maps/MapSegment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/MapSegment.cpp b/src/maps/MapSegment.cpp
index b3aef48..8b403e6 100644
--- a/src/maps/MapSegment.cpp
+++ b/src/maps/MapSegment.cpp
@@ -38,8 +38,8 @@ envire::Map<3>::Extents MapSegment::getExtents() const
 	else if( map2 )
 	{
 	    Eigen::AlignedBox<double, 3> e3;
-	    e3.min().head<2>() = map2->getExtents().min();
-	    e3.max().head<2>() = map2->getExtents().max();
+	    e3.min() << map2->getExtents().min(), 0.0;
+	    e3.max() << map2->getExtents().max(), 0.0;
 	    extents.extend( e3.translate( g2m.translation() ) );
 	}
     }
-- 
2.43.0


From 0aca4d6fe7725cd3e6e753c58e5a7029eeb04bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 107/159] fix: extents of map segments ignored the orientation
 of their maps

---
 src/maps/MapSegment.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/maps/MapSegment.cpp b/src/maps/MapSegment.cpp
index 8b403e6..5c8a506 100644
--- a/src/maps/MapSegment.cpp
+++ b/src/maps/MapSegment.cpp
@@ -15,6 +15,22 @@ MapSegment::MapSegment()
 {
 }
 
+/** extend the extents by all the corners of a box in another frame */
+static void extendByCorners( Eigen::AlignedBox<double, 3>& extents, const Eigen::AlignedBox<double, 3>& box, const Eigen::Affine3d& transform )
+{
+    if( box.isEmpty() )
+	return;
+
+    for( int i=0; i<8; i++ )
+    {
+	Eigen::Vector3d corner( 
+		i & 1 ? box.max().x() : box.min().x(),
+		i & 2 ? box.max().y() : box.min().y(),
+		i & 4 ? box.max().z() : box.min().z() );
+	extents.extend( transform * corner );
+    }
+}
+
 envire::Map<3>::Extents MapSegment::getExtents() const
 {
     // combine the extents of the children of this map
@@ -29,18 +45,16 @@ envire::Map<3>::Extents MapSegment::getExtents() const
 	assert( map->isAttached() );
 	Eigen::Affine3d g2m = map->getFrameNode()->relativeTransform( this->getFrameNode() );
 
-	// currently this assumes that child grids are not rotated
-	// TODO handle rotated child grids here
 	if( map3 )
 	{
-	    extents.extend( map3->getExtents().translate( g2m.translation() ) );
+	    extendByCorners( extents, map3->getExtents(), g2m );
 	}
 	else if( map2 )
 	{
 	    Eigen::AlignedBox<double, 3> e3;
 	    e3.min() << map2->getExtents().min(), 0.0;
 	    e3.max() << map2->getExtents().max(), 0.0;
-	    extents.extend( e3.translate( g2m.translation() ) );
+	    extendByCorners( extents, e3, g2m );
 	}
     }
 
-- 
2.43.0


From 5d1da40a65356cba5722391b694e6a82e003ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 108/159] fix: parts of a map segment without trajectory got
 the length of that of another part

---
 src/maps/MapSegment.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/maps/MapSegment.cpp b/src/maps/MapSegment.cpp
index 5c8a506..11a4973 100644
--- a/src/maps/MapSegment.cpp
+++ b/src/maps/MapSegment.cpp
@@ -150,8 +150,7 @@ CartesianMap* MapSegment::getMapForPose( const base::Affine3d& pose, base::Affin
 	    best_map = parts[i].map.get();
 	    map_pose = parts[i].pose.toTransform();
 	    best_dist = dist;
-	    if( trajectories.size() > i )
-		traj_size = trajectories[i].size();
+	    traj_size = trajectories.size() > i ? trajectories[i].size() : 0;
 	}
     }
 
-- 
2.43.0


From f77cae1618bfa07a9eec9c44103f4a09a8e96073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 109/159] fix: meshing wrote beyond its buffers for scans with
 lines of different length

---
 src/operators/ScanMeshing.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..6cf4c24 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -1,6 +1,7 @@
 #include "ScanMeshing.hpp"
 #include <stdexcept>
 #include <iostream>
+#include <algorithm>
 
 using namespace envire;
 using namespace std;
@@ -138,11 +139,18 @@ bool ScanMeshing::updateAll()
 
     envire::LaserScan& scan(*scanPtr);
 
-    int line1[scan.points_per_line], line2[scan.points_per_line];
-    int *idx_line=line1, *prev_idx_line=line2;
+    // the number of points may differ between the lines
+    size_t line_size = 0;
+    for(size_t i=0;i<scan.lines.size();i++)
+        line_size = std::max( line_size, scan.lines[i].ranges.size() );
+
+    std::vector<int> line1(line_size, -1), line2(line_size, -1);
+    std::vector<int> *idx_line_ptr=&line1, *prev_idx_line_ptr=&line2;
 
     for(size_t line_num=0;line_num<scan.lines.size();line_num++) {
         const LaserScan::scanline_t& line(scan.lines[line_num]);
+        std::vector<int> &idx_line(*idx_line_ptr), &prev_idx_line(*prev_idx_line_ptr);
+        std::fill( idx_line.begin(), idx_line.end(), -1 );
 
         float phi = scan.origin_phi + line.delta_phi;
         float psi = scan.origin_psi;
@@ -296,9 +304,7 @@ bool ScanMeshing::updateAll()
         }
 
         // swap line and previous line
-        int *tmp = idx_line;
-        idx_line = prev_idx_line;
-        prev_idx_line = tmp;
+        std::swap( idx_line_ptr, prev_idx_line_ptr );
     }
 
     for(size_t i=0;i<markers.size();i++)
-- 
2.43.0


From 4cc47abc53c64797ff2494ebc7ea9f1193e3d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 110/159] fix: the first point of a scan was never part of the
 mesh

---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 6cf4c24..532193d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -270,7 +270,7 @@ bool ScanMeshing::updateAll()
                     
                     // check polygon for existance and then see if all
                     // three edges are within the threshold limit
-                    if( (poly[idx[0]] > 0) && (poly[idx[1]] > 0) && (poly[idx[2]] > 0) && 
+                    if( (poly[idx[0]] >= 0) && (poly[idx[1]] >= 0) && (poly[idx[2]] >= 0) && 
                             (first_poly==-1 || (first_poly+n)%2==0 ) ) {
 
                         float dist_a = (points[poly[idx[0]]] - points[poly[idx[1]]]).norm();
-- 
2.43.0


From a80e17caced7b7cd51acd521765e9e5ad3f24854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 111/159] fix: meshing scans failed if only some of the lines
 have remission values

---
 src/operators/ScanMeshing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 532193d..08a20f5 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -144,6 +144,11 @@ bool ScanMeshing::updateAll()
     for(size_t i=0;i<scan.lines.size();i++)
         line_size = std::max( line_size, scan.lines[i].ranges.size() );
 
+    // either all of the points have a color or none
+    bool has_rem = true;
+    for(size_t i=0;i<scan.lines.size();i++)
+        has_rem = has_rem && scan.lines[i].ranges.size() == scan.lines[i].remissions.size();
+
     std::vector<int> line1(line_size, -1), line2(line_size, -1);
     std::vector<int> *idx_line_ptr=&line1, *prev_idx_line_ptr=&line2;
 
@@ -155,8 +160,6 @@ bool ScanMeshing::updateAll()
         float phi = scan.origin_phi + line.delta_phi;
         float psi = scan.origin_psi;
 
-	bool has_rem = (line.ranges.size() == line.remissions.size());
-
 	float prev_edgeAngle = M_PI*0.5;
         for(size_t point_num=0;point_num<line.ranges.size();point_num++) {
 	    // check distance derivative over angle to filter ghost
-- 
2.43.0


From 1fbcd2db11324659c68cf5c6886663447e79eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 112/159] fix: remission scale factor of ScanMeshing was not
 saved and replaced the edge length

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 08a20f5..1719b93 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -29,7 +29,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -37,7 +37,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From e288907b5035164b7095ad9508b13dc059e5a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 113/159] fix: ScanMeshing::setExtractMarkers was not
 implemented

---
 src/operators/ScanMeshing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1719b93..2154e8d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -85,6 +85,11 @@ void ScanMeshing::setRemissionMarkerThreshold( long value )
     remissionMarkerThreshold = value;
 }
 
+void ScanMeshing::setExtractMarkers( bool value ) 
+{
+    extractMarkers = value;
+}
+
 struct Marker
 {
     Eigen::Vector3d center;
-- 
2.43.0


From 5795b9587507795c1edbb6f07ea0fde09a317ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:28 +0000
Subject: [PATCH 114/159] fix: ObjectGrowing accepted outputs of another shape

---
 src/operators/ObjectGrowing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index 90f7b91..9284e56 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -49,7 +49,7 @@ public:
 
         typename Grid< Y >::ArrayType &data( mapOut.getGridData(band_name) );
 
-        if(orig_data.num_elements() != data.num_elements())
+        if(orig_data.shape()[0] != data.shape()[0] || orig_data.shape()[1] != data.shape()[1])
             throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
     
         memcpy(data.data(), orig_data.data(), sizeof(Y) * orig_data.num_elements());
-- 
2.43.0


From 78a73f9bc789c3d86e4c887426f5f7ac0026cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:50 +0000
Subject: [PATCH 115/159] fix: curves were projected onto a MLSGrid with the
 number of cells as resolution

---
 src/maps/MLSGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 6c78705..344d91a 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -107,7 +107,7 @@ base::geometry::Spline3 MLSGrid::projectSplineOnSurface(double startHeight, cons
 {
     //sample the spline in a resolution four times higher than the
     //cell size.
-    std::vector<base::Vector3d> points = spline.sample(this->getCellSizeX()/4.0);
+    std::vector<base::Vector3d> points = spline.sample(std::min(getScaleX(), getScaleY())/4.0);
     double lastHeight = startHeight;
     size_t x, y;
     for(std::vector<base::Vector3d>::iterator it = points.begin(); it != points.end(); it++)
-- 
2.43.0


From 4463e303e3caab0575156eacc3dc5b5e1ea3aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:07 +0000
Subject: [PATCH 116/159] fix: points and curves were projected onto free space

---
 src/maps/MLSGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 344d91a..26c935f 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -87,7 +87,7 @@ std::vector< Eigen::Vector3d > MLSGrid::projectPointsOnSurface(double startHeigh
 	for(;cIt != endCell(); cIt++)
 	{
 	    double diff = fabs(lastHeight - cIt->getMaxZ());
-	    if(diff < minDiff)
+	    if(!cIt->isNegative() && diff < minDiff)
 	    {
 		minDiff = diff;
 		closestZ = cIt->getMaxZ();
@@ -122,7 +122,7 @@ base::geometry::Spline3 MLSGrid::projectSplineOnSurface(double startHeight, cons
 	    for(;cIt != endCell(); cIt++)
 	    {
 		double diff = fabs(lastHeight - cIt->getMaxZ());
-		if(diff < minDiff)
+		if(!cIt->isNegative() && diff < minDiff)
 		{
 		    minDiff = diff;
 		    closestZ = cIt->getMaxZ();
-- 
2.43.0


From 00939c744579253b34faeec1f8789cd78ae9f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 117/159] fix: icp transform did not minimise the error of
 rotated pairs

---
 icp/icp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index 2db00ad..563532d 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -78,7 +78,7 @@ Affine3d Pairs::getTransform()
 
     Matrix4d q_px;
     q_px << sigma_px.trace(), delta.transpose(), 
-	 delta, A - Matrix3d::Identity() * sigma_px.trace();
+	 delta, sigma_px + sigma_px.transpose() - Matrix3d::Identity() * sigma_px.trace();
 
     // do an eigenvalue decomposition of Q
     Quaterniond q_R;
-- 
2.43.0


From 7984170102ffc4918ddc026a78561ffae7e3aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 118/159] fix: icp pairs added after trimming referred to other
 points

---
 icp/icp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index 563532d..a75005d 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -12,7 +12,7 @@ using namespace Eigen;
 void Pairs::add( const Vector3d& a, const Vector3d& b, double dist )
 {
     pair pair;
-    pair.index = pairs.size();
+    pair.index = x.size();
     pair.distance = dist;
 
     x.push_back( a );
-- 
2.43.0


From 82a7444abfdbfd9ac7b1d4b74b4e6bf52db46a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:05 +0000
Subject: [PATCH 119/159] fix: golden section search of icp lost the minimum

---
 icp/icp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/icp/icp.hpp b/icp/icp.hpp
index 821614b..84b6c25 100644
--- a/icp/icp.hpp
+++ b/icp/icp.hpp
@@ -306,12 +306,12 @@ struct GoldenBracket
 	while (fabs(x3-x0) > eps*(fabs(x1)+fabs(x2))) 
 	{
 	    if (f2 < f1) {
-		SHIFT3(x0,x1,x2,R*x1+C*x3);
+		SHIFT3(x0,x1,x2,R*x2+C*x3);
 		SHIFT2(f1,f2,f(x2));
 	    } 
 	    else 
 	    {
-		SHIFT3(x3,x2,x1,R*x2+C*x0);
+		SHIFT3(x3,x2,x1,R*x1+C*x0);
 		SHIFT2(f2,f1,f(x1));
 	    }
 	}
-- 
2.43.0


From 66f348f2c4016f3aa020501b5dfc31553c649e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 120/159] fix: heading variance of pose clusters used only the
 first pose

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index b4bb292..0288535 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -44,7 +44,7 @@ void Clustering::calcVariance(  )
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	variance_postion = variance_postion + (mean.translation() - points.at(i).translation()).array().square().matrix(); 
-	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(0).rotation()).eulerAngles(2,1,0)[0], 2 );
+	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0], 2 );
     }
 
     variance_postion = variance_postion / points.size();
-- 
2.43.0


From a0aa9ca1b763ec055b5768ca66ba90918c88dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 121/159] fix: headings of pose clusters were folded to [0, pi]
 and averaged across the wrap

---
 icp/stability.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 0288535..a064d57 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -12,6 +12,18 @@ using namespace std;
 using namespace Eigen; 
 using namespace envire::icp;
 
+/** heading of a pose, in the range [-pi, pi] */
+static double getYaw( const Eigen::Affine3d& pose )
+{
+    const Eigen::Matrix3d rotation( pose.rotation() );
+    return atan2( rotation(1,0), rotation(0,0) );
+}
+
+/** difference between two headings, in the range [-pi, pi] */
+static double yawDifference( double a, double b )
+{
+    return atan2( sin(a - b), cos(a - b) );
+}
 
 bool Clustering::cluster(  std::vector<Eigen::Affine3d> points ) 
 {
@@ -44,7 +56,7 @@ void Clustering::calcVariance(  )
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	variance_postion = variance_postion + (mean.translation() - points.at(i).translation()).array().square().matrix(); 
-	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0], 2 );
+	variance_yaw = variance_yaw + pow( yawDifference( getYaw( mean ), getYaw( points.at(i) ) ), 2 );
     }
 
     variance_postion = variance_postion / points.size();
@@ -79,12 +91,12 @@ void Clustering::calcMean( )
     {
 	//std::cout << points.at(i).translation().transpose() << " - " <<  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0] * 180 / M_PI<<  endl; 
 	position_mean = position_mean + points.at(i).translation(); 
-	yaw_mean = yaw_mean + Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0]; 
+	yaw_mean = yaw_mean + yawDifference( getYaw( points.at(i) ), getYaw( points.at(0) ) ); 
 	
     }
     
     position_mean = position_mean /  points.size(); 
-    yaw_mean = yaw_mean /  points.size(); 
+    yaw_mean = getYaw( points.at(0) ) + yaw_mean /  points.size(); 
     //std::cout <<points.size() <<" mean " << position_mean.transpose() << " - " <<  yaw_mean * 180 / M_PI <<  endl; 
     mean = Eigen::AngleAxisd( yaw_mean, Eigen::Vector3d::UnitZ() ); 
     mean.translation() = position_mean;
@@ -138,7 +150,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( Matrix3d( points.at(i).rotation() ).eulerAngles(2,1,0)[0] - Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0] ); 
+		diference = fabs( yawDifference( getYaw( points.at(i) ), getYaw( mean ) ) ); 
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From a17be0fd856cbe2bb25fa0e1cc337b7772cbd65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 122/159] fix: outliers of pose clusters were chosen by their
 distance from the origin

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index a064d57..1ca5582 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -137,7 +137,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( mean.translation().norm() - points.at(i).translation().norm() );
+		diference = ( mean.translation() - points.at(i).translation() ).norm();
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From 2f080184a2989a604991afa8fe29ccfd781eafd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 123/159] fix: outlier limit for the heading of poses was taken
 from the position

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 1ca5582..86b16cd 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -109,7 +109,7 @@ void Clustering::defOutlinerRegion(Eigen::Matrix3d cov_position, Eigen::Matrix3d
     {
 	SigmaPoints sigma_points; 
 	Eigen::Matrix3d sigma_points_pos = sigma_points.calcSigmaPoints(cov_position, conf.outliers_position); 
-	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_position, conf.outliers_orientation); 
+	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_orientation, conf.outliers_orientation); 
 	
 	variance_limit_ori = sigma_points_ori * sigma_points_ori; 
 	variance_limit_pos = sigma_points_pos * sigma_points_pos; 
-- 
2.43.0


From 608f788738780eaea82a91b07d93dcd20db0eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 124/159] fix: head movement of scan lines was compared with
 the wrong line

---
 icp/icpLocalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 4798f76..8e3eb35 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -66,7 +66,7 @@ void ICPLocalization::addScanLineToPointCloud(Eigen::Affine3d body2Odo, Eigen::A
 
 	Vector3d Ylaser2Body = laser2Body * Vector3d::UnitY() - laser2Body.translation();
 	Ylaser2Body.normalize();
-	Vector3d YlastLaser2Body = scansWithTransforms.back().laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
+	Vector3d YlastLaser2Body = scansWithTransforms.at(i).laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
 	YlastLaser2Body.normalize();
 	
 	double laserChange = acos(Ylaser2Body.dot(YlastLaser2Body));
-- 
2.43.0


From 3013a359a91996f1b43a1d7d1264e468d2b5e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 125/159] fix: a polygon inside of a polygon of a set was not
 found unless both had the same pose

---
 src/maps/PolygonMap.cpp | 50 ++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/maps/PolygonMap.cpp b/src/maps/PolygonMap.cpp
index d12d648..5c52c26 100644
--- a/src/maps/PolygonMap.cpp
+++ b/src/maps/PolygonMap.cpp
@@ -76,7 +76,7 @@ void Polygon::move(const base::Pose& pose)
 class PolygonSetData
 {
 public:
-    PolygonSetData() : curTestPoly(NULL), collisionPoly(NULL), hasCollision(false)
+    PolygonSetData() : curTestPoly(NULL), hasCollision(false), isInside(false)
     {
 	minDistance.distance = std::numeric_limits< float >::max();
     }
@@ -86,8 +86,8 @@ public:
     
     //collision test data
     const envire::Polygon *curTestPoly;
-    const envire::Polygon *collisionPoly;
     bool hasCollision;
+    bool isInside;
     b2DistanceOutput minDistance;
 };
 
@@ -132,6 +132,7 @@ void PolygonSet::doQuery(const envire::Polygon& poly)
     
     poly.data->moved = false;
     data->hasCollision = false;
+    data->isInside = false;
     data->minDistance.distance = std::numeric_limits< float >::max();
     data->curTestPoly = &poly;    
     data->broadPhase.Query(data, poly.data->aabb);
@@ -148,23 +149,7 @@ bool PolygonSet::isInside(const envire::Polygon& poly)
 {
     doQuery(poly);
 
-    if(!data->hasCollision)
-	return false;
-    
-    const b2PolygonShape *shape1 = &(poly.data->shape);
-    const b2PolygonShape *shape2 = &(data->collisionPoly->data->shape);
-    
-    //perform point test for every vertex in poly
-#ifdef BOX2D_2_4
-    for(int i = 0;i < shape1->m_count; i++)
-#else
-    for(int i = 0;i < shape1->GetVertexCount(); i++)
-#endif
-    {
-	if(!shape2->TestPoint(poly.data->pose, shape1->m_vertices[i]))
-	    return false;
-    }
-    return true;
+    return data->isInside;
 }
 
 bool PolygonSet::isIntersecting(const envire::Polygon& poly)
@@ -174,11 +159,29 @@ bool PolygonSet::isIntersecting(const envire::Polygon& poly)
     return data->hasCollision;
 }
 
+/**
+ * Returns true if every vertex of inner lies within outer
+ * */
+static bool contains(const PolygonData &outer, const PolygonData &inner)
+{
+#ifdef BOX2D_2_4
+    for(int i = 0;i < inner.shape.m_count; i++)
+#else
+    for(int i = 0;i < inner.shape.GetVertexCount(); i++)
+#endif
+    {
+	if(!outer.shape.TestPoint(outer.pose, b2Mul(inner.pose, inner.shape.m_vertices[i])))
+	    return false;
+    }
+    return true;
+}
+
 /**
  * This function gets called if we hit a leaf in the AABB-Tree.
  * In this case we compute the distance of the two shapes
  * inside the colliding AABBs. If the distance is really small
- * we assume a collision happended and terminate the tree query.
+ * we assume a collision happended, and terminate the tree query if the 
+ * polygon is inside.
  * */
 bool PolygonSetData::QueryCallback(int32_t proxyId)
 {
@@ -204,7 +207,7 @@ bool PolygonSetData::QueryCallback(int32_t proxyId)
     if(collision)
     {
 	hasCollision = true;
-	collisionPoly = polygons[proxyId];
+	isInside = contains(*polygons[proxyId]->data, *curTestPoly->data);
     }
     
     std::cout << output.pointA.x << " " << output.pointA.y << std::endl;
@@ -214,8 +217,9 @@ bool PolygonSetData::QueryCallback(int32_t proxyId)
     if(output.distance < minDistance.distance)
 	minDistance = output;
     
-    //stop querry if we have an collision
-    return !collision;
+    //stop querry if the polygon is inside, nothing more can be found. A mere
+    //collision is not enough, as it may be inside of another polygon.
+    return !isInside;
 }
 
 
-- 
2.43.0


From ad82a92108b2146fd1781745b107ee3a21d76d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:31 +0000
Subject: [PATCH 126/159] fix: polygon sets answered for former positions of
 moved polygons

---
 src/maps/PolygonMap.cpp | 44 ++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/maps/PolygonMap.cpp b/src/maps/PolygonMap.cpp
index 5c52c26..8fc423b 100644
--- a/src/maps/PolygonMap.cpp
+++ b/src/maps/PolygonMap.cpp
@@ -22,8 +22,14 @@ public:
     b2PolygonShape distanceCompShape;
     b2Transform pose;
     b2AABB aabb;
-    int proxyId;
-    mutable bool moved;
+    //unique for every state of every polygon
+    unsigned long revision;
+
+    void changed()
+    {
+	static unsigned long lastRevision = 0;
+	revision = ++lastRevision;
+    }
     
     void setShape(b2PolygonShape &shape, const std::vector<Eigen::Vector2d>& points) const
     {
@@ -45,12 +51,12 @@ Polygon::Polygon(const std::vector<Eigen::Vector2d>& points) : data(new PolygonD
 {
     data->setShape(data->shape, points);
     data->pose.SetIdentity();
-    data->moved = true;
     setDistanceCalculationArea(points);
 }
 
 void Polygon::setDistanceCalculationArea(const std::vector<Eigen::Vector2d>& points)
 {
+    data->changed();
     data->setShape(data->distanceCompShape, points);
     data->distanceCompShape.ComputeAABB(&(data->aabb), data->pose, 0);
 }
@@ -63,7 +69,7 @@ Polygon::~Polygon()
 
 void Polygon::move(const base::Pose& pose)
 {
-    data->moved = true;
+    data->changed();
     b2Vec2 pos(pose.position.x(), pose.position.y());
 //     std::cout << "Moved to " << pos.x << " " << pos.y << std::endl;
     data->pose.Set(pos, pose.getYaw());
@@ -76,16 +82,19 @@ void Polygon::move(const base::Pose& pose)
 class PolygonSetData
 {
 public:
-    PolygonSetData() : curTestPoly(NULL), hasCollision(false), isInside(false)
+    PolygonSetData() : curTestPoly(NULL), curRevision(0), hasCollision(false), isInside(false)
     {
 	minDistance.distance = std::numeric_limits< float >::max();
     }
     std::vector<envire::Polygon *> polygons;
+    //revisions of the polygons that the broad phase knows
+    std::vector<unsigned long> revisions;
     b2BroadPhase broadPhase;
     bool QueryCallback(int32_t proxyId);
     
     //collision test data
     const envire::Polygon *curTestPoly;
+    unsigned long curRevision;
     bool hasCollision;
     bool isInside;
     b2DistanceOutput minDistance;
@@ -110,11 +119,16 @@ void PolygonSet::add(envire::Polygon& poly)
 {
     int proxyId = data->broadPhase.CreateProxy(poly.data->aabb, NULL);
     if(data->polygons.size() <= proxyId)
+    {
 	data->polygons.resize(proxyId + 1, NULL);
-	
-    poly.data->proxyId = proxyId;
+	data->revisions.resize(proxyId + 1, 0);
+    }
 
     data->polygons[proxyId] = &poly;
+    data->revisions[proxyId] = poly.data->revision;
+
+    //the result of the last query does not hold any more
+    data->curTestPoly = NULL;
 }
 
 Map< 2 >::Extents PolygonMap::getExtents() const
@@ -124,13 +138,25 @@ Map< 2 >::Extents PolygonMap::getExtents() const
 
 void PolygonSet::doQuery(const envire::Polygon& poly)
 {
+    //follow the polygons that were changed since the last query
+    for(size_t i = 0; i < data->polygons.size(); i++)
+    {
+	const Polygon *cur = data->polygons[i];
+	if(cur && cur->data->revision != data->revisions[i])
+	{
+	    data->broadPhase.MoveProxy(i, cur->data->aabb, b2Vec2(0, 0));
+	    data->revisions[i] = cur->data->revision;
+	    data->curTestPoly = NULL;
+	}
+    }
+
     //check if we allready computed distance and intersection
-    if((&poly == data->curTestPoly) && !poly.data->moved)
+    if((&poly == data->curTestPoly) && poly.data->revision == data->curRevision)
 	return;
     
 //     std::cout << "Performing querry" << std::endl;
     
-    poly.data->moved = false;
+    data->curRevision = poly.data->revision;
     data->hasCollision = false;
     data->isInside = false;
     data->minDistance.distance = std::numeric_limits< float >::max();
-- 
2.43.0


From 26f3b1aecf0a395d2da4f19c5b1b881d9bf955a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 127/159] fix: copies of polygons, polygon sets and polygon
 maps were freed twice

---
 src/maps/PolygonMap.cpp | 26 ++++++++++++++++++++++++++
 src/maps/PolygonMap.hpp |  4 ++++
 2 files changed, 30 insertions(+)

diff --git a/src/maps/PolygonMap.cpp b/src/maps/PolygonMap.cpp
index 8fc423b..f1ea8ed 100644
--- a/src/maps/PolygonMap.cpp
+++ b/src/maps/PolygonMap.cpp
@@ -54,6 +54,16 @@ Polygon::Polygon(const std::vector<Eigen::Vector2d>& points) : data(new PolygonD
     setDistanceCalculationArea(points);
 }
 
+Polygon::Polygon(const Polygon& other) : data(new PolygonData(*other.data))
+{
+}
+
+Polygon& Polygon::operator=(const Polygon& other)
+{
+    *data = *other.data;
+    return *this;
+}
+
 void Polygon::setDistanceCalculationArea(const std::vector<Eigen::Vector2d>& points)
 {
     data->changed();
@@ -110,6 +120,22 @@ PolygonSet::PolygonSet() : data(new PolygonSetData())
 
 }
 
+PolygonSet::PolygonSet(const PolygonSet& other) : data(new PolygonSetData())
+{
+    for(size_t i = 0; i < other.data->polygons.size(); i++)
+    {
+	if(other.data->polygons[i])
+	    add(*other.data->polygons[i]);
+    }
+}
+
+PolygonSet& PolygonSet::operator=(const PolygonSet& other)
+{
+    PolygonSet copy(other);
+    std::swap(data, copy.data);
+    return *this;
+}
+
 PolygonSet::~PolygonSet()
 {
     delete data;
diff --git a/src/maps/PolygonMap.hpp b/src/maps/PolygonMap.hpp
index ff3ba3d..28cae06 100644
--- a/src/maps/PolygonMap.hpp
+++ b/src/maps/PolygonMap.hpp
@@ -20,6 +20,8 @@ class Polygon
     friend class PolygonSetData;
 public:
     Polygon(const std::vector<Eigen::Vector2d> &points);
+    Polygon(const Polygon &other);
+    Polygon &operator=(const Polygon &other);
     ~Polygon();
     void move(const base::Pose &pose);
     
@@ -41,6 +43,8 @@ class PolygonSet
 {
 public:
     PolygonSet();
+    PolygonSet(const PolygonSet &other);
+    PolygonSet &operator=(const PolygonSet &other);
     ~PolygonSet();
     void add(Polygon &poly);
     bool isIntersecting(const Polygon &poly);
-- 
2.43.0


From a09724365bfa02a7719c613f4dfe5300fc82a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 128/159] fix: ids and labels with special characters made the
 graph invalid or joined items

---
 src/tools/GraphViz.cpp | 44 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index 58a46a9..8c4816a 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -6,13 +6,25 @@
 
 using namespace envire;
 
-std::string dot_id(envire::EnvironmentItem* item)
+// escape the characters that have a meaning in quoted strings
+static std::string dot_escape(const std::string& text)
 {
-    std::string result = item->getUniqueId();
-    std::replace(result.begin(), result.end(), '/', '_');
+    std::string result;
+    foreach( char c, text )
+    {
+	if( c == '"' || c == '\\' )
+	    result += '\\';
+	result += c;
+    }
     return result;
 }
 
+// the ids are quoted, since they may contain any character
+std::string dot_id(envire::EnvironmentItem* item)
+{
+    return "\"" + dot_escape( item->getUniqueId() ) + "\"";
+}
+
 void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 {
     std::ofstream os(outputfile.c_str());
@@ -28,10 +40,10 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 	if( classname.find("::") != std::string::npos )
 	    classname = classname.substr( classname.rfind("::") + 2 );
 
-	os << "g" << dot_id(item) << " ";
-	std::string name = (boost::format("%s [%i]") % classname % item->getUniqueId()).str();
+	os << dot_id(item) << " ";
+	std::string name = dot_escape( classname + " [" + item->getUniqueId() + "]" );
 	if( !item->getLabel().empty() )
-	    name = item->getLabel() + "\\n" + name;
+	    name = dot_escape( item->getLabel() ) + "\\n" + name;
 
 	if( dynamic_cast<FrameNode*>(item) )
 	{
@@ -63,8 +75,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::frameNodeTreeType::value_type& pair, env->frameNodeTree )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -72,8 +84,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::layerTreeType::value_type& pair, env->layerTree )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [style=dotted]"
 	    << std::endl;
     }
@@ -82,8 +94,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphInput )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << std::endl;
     }
 
@@ -91,8 +103,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphOutput )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -100,8 +112,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::cartesianMapGraphType::value_type& pair, env->cartesianMapGraph )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [shape=dot]"
 	    << std::endl;
     }
-- 
2.43.0


From 6b09aad36b1021f3f4e420619ddec7fa24fcc036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:11 +0000
Subject: [PATCH 129/159] fix: items that are no frame, layer or operator made
 the graph invalid

---
 src/tools/GraphViz.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index 8c4816a..eb6d6f2 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -68,6 +68,11 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 		<< "[label=\"" << name << "\""
 		<< ",shape=box,style=filled,fillcolor=palegreen";
 
+	// items that are neither of these
+	if( !dynamic_cast<FrameNode*>(item) && !dynamic_cast<Operator*>(item) && !dynamic_cast<Layer*>(item) )
+	    os 
+		<< "[label=\"" << name << "\"";
+
 	os << "]" << std::endl;
     }
 
-- 
2.43.0


From 46a3f5ec6ef0c48d0f679263e5f7d12bd63a84a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:13 +0000
Subject: [PATCH 130/159] fix: env_create_grid refused frames without offsets
 and crashed for offsets without a frame

---
 tools/env_create_grid.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tools/env_create_grid.cpp b/tools/env_create_grid.cpp
index 03ecbc0..2db4c70 100644
--- a/tools/env_create_grid.cpp
+++ b/tools/env_create_grid.cpp
@@ -5,6 +5,7 @@
 #include <envire/maps/MLSGrid.hpp>
 #include <boost/scoped_ptr.hpp>
 
+#include <cstring>
 #include <iostream>
 
 using namespace envire;
@@ -75,20 +76,20 @@ int main(int argc, char* argv[])
         height  = boost::lexical_cast<int>(argv[argi++]);
         scale_x = boost::lexical_cast<double>(argv[argi++]);
         scale_y = boost::lexical_cast<double>(argv[argi++]);
-        if (argc > 7)
+        if (argi < argc && strcmp( argv[argi], "-frame") )
         {
-            if (argc < 9)
+            if (argi + 2 > argc)
             {
                 std::cerr << "missing arguments" << std::endl;
                 usage(1);
             }
 
-            if ( strcmp( argv[argi], "-frame") )
-            {
-                offset_x = boost::lexical_cast<double>(argv[argi++]);
-                offset_y = boost::lexical_cast<double>(argv[argi++]);
-            }
+            offset_x = boost::lexical_cast<double>(argv[argi++]);
+            offset_y = boost::lexical_cast<double>(argv[argi++]);
+        }
 
+        if (argi < argc)
+        {
             if ( strcmp( argv[argi], "-frame") ) 
 	    {
 		std::cerr << "expected -frame argument" << std::endl;
@@ -96,7 +97,7 @@ int main(int argc, char* argv[])
 	    }
 	    argi++;
 
-            if (argc < 11)
+            if (argi == argc)
             {
                 std::cerr << "too little arguments provided" << std::endl;
                 usage(1);
-- 
2.43.0


From 1957fd8213c8e7f94dabd282bd996b0015f617f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:08 +0000
Subject: [PATCH 131/159] fix: env_add_grid refused -frame and -map

---
 tools/env_add_grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/env_add_grid.cpp b/tools/env_add_grid.cpp
index cb2ed3c..ba8db73 100644
--- a/tools/env_add_grid.cpp
+++ b/tools/env_add_grid.cpp
@@ -26,7 +26,7 @@ void usage(int exit_code = 0)
 
 int main(int argc, char* argv[])
 {
-    if (argc < 4 || argc > 6 )
+    if (argc < 4 || argc > 7 )
         usage(1);
 
     std::string env_path(argv[1]);
@@ -43,7 +43,7 @@ int main(int argc, char* argv[])
     if (argc > 4)
     {
         std::string mode = argv[4];
-        int next_idx = 5;
+        int next_idx = 4;
         if (mode != "-frame" && mode != "-map")
         {
             // assume this is a map type
@@ -61,6 +61,8 @@ int main(int argc, char* argv[])
                 frame_id = argv[next_idx + 1];
             else if (mode == "-map")
                 map_id = argv[next_idx + 1];
+            else
+                usage(1);
         }
     }
 
-- 
2.43.0


From 9388abdc65427e722a39fdff598da24fd99bb481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:46 +0000
Subject: [PATCH 132/159] fix: env_add_grid crashed for frames and maps that do
 not exist

---
 tools/env_add_grid.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/env_add_grid.cpp b/tools/env_add_grid.cpp
index ba8db73..44239f8 100644
--- a/tools/env_add_grid.cpp
+++ b/tools/env_add_grid.cpp
@@ -66,6 +66,17 @@ int main(int argc, char* argv[])
         }
     }
 
+    if (frame_id != "" && !env->getItem<envire::FrameNode>(frame_id))
+    {
+        std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
+        return 1;
+    }
+    if (map_id != "" && !env->getItem<envire::GridBase>(map_id))
+    {
+        std::cerr << "specified map ID " << map_id << " does not exist" << std::endl;
+        return 1;
+    }
+
     if (frame_id == "" && map_id == "")
     {
         if (transform.isApprox(Transform::Identity()))
-- 
2.43.0


From 8cbbf10ece09415446f12a82f241d26cf1eb9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:07 +0000
Subject: [PATCH 133/159] fix: copying a band from a grid of another size wrote
 beyond the band

---
 src/maps/Grid.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 7002fea..ff34df2 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -302,6 +302,8 @@ namespace envire
          *
          * @throw std::bad_cast if the source grid is not of the same cell type
          * than this grid
+         * @throw std::runtime_error if the source grid has another size than
+         * this grid
          */
         void copyBandFrom(GridBase const& _source, std::string const& source_band, std::string const& _target_band = "")
         {
@@ -310,6 +312,9 @@ namespace envire
             if (_target_band.empty())
                 target_band = source_band;
 
+            if (source.getCellSizeX() != getCellSizeX() || source.getCellSizeY() != getCellSizeY())
+                throw std::runtime_error("copyBandFrom: the grids have different sizes");
+
             getGridData(target_band) = source.getGridData(source_band);
             std::pair<T, bool> no_data = source.getNoData(source_band);
             if (no_data.second)
-- 
2.43.0


From be807a7d374d86ad5609fd8a8522ed64280614d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 134/159] fix: env_mls_slopes created an output of the wrong
 type

---
 tools/env_mls_slopes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/env_mls_slopes.cpp b/tools/env_mls_slopes.cpp
index 45e0399..391431b 100644
--- a/tools/env_mls_slopes.cpp
+++ b/tools/env_mls_slopes.cpp
@@ -40,7 +40,7 @@ int main( int argc, char* argv[] )
         mls = env->getItem<MLSGrid>();
     }
 
-    boost::intrusive_ptr< envire::Grid<double> > grid = new envire::Grid<double>(
+    boost::intrusive_ptr< envire::Grid<float> > grid = new envire::Grid<float>(
             mls->getWidth(), mls->getHeight(),
             mls->getScaleX(), mls->getScaleY());
     env->attachItem(grid.get());
-- 
2.43.0


From 7621ae9f6d96904e8a30d46ba3cffeed95dec3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 135/159] fix: slope and traversability maps were created
 without the offset of their source

---
 tools/env_mls_slopes.cpp     | 3 ++-
 tools/env_traversability.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/env_mls_slopes.cpp b/tools/env_mls_slopes.cpp
index 391431b..7ef3bf3 100644
--- a/tools/env_mls_slopes.cpp
+++ b/tools/env_mls_slopes.cpp
@@ -42,7 +42,8 @@ int main( int argc, char* argv[] )
 
     boost::intrusive_ptr< envire::Grid<float> > grid = new envire::Grid<float>(
             mls->getWidth(), mls->getHeight(),
-            mls->getScaleX(), mls->getScaleY());
+            mls->getScaleX(), mls->getScaleY(),
+            mls->getOffsetX(), mls->getOffsetY());
     env->attachItem(grid.get());
     grid->setFrameNode(mls->getFrameNode());
 
diff --git a/tools/env_traversability.cpp b/tools/env_traversability.cpp
index d560578..16a6dc7 100644
--- a/tools/env_traversability.cpp
+++ b/tools/env_traversability.cpp
@@ -34,7 +34,8 @@ int main( int argc, char* argv[] )
 
     boost::intrusive_ptr< SimpleTraversability::OutputLayer > output = new SimpleTraversability::OutputLayer(
             input->getWidth(), input->getHeight(),
-            input->getScaleX(), input->getScaleY());
+            input->getScaleX(), input->getScaleY(),
+            input->getOffsetX(), input->getOffsetY());
     env->attachItem(output.get());
     output->setFrameNode(input->getFrameNode());
 
-- 
2.43.0


From 9bffeae74838e98c338f0b0ec679f26420cfa606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:50 +0000
Subject: [PATCH 136/159] fix: env_traversability read beyond the arguments
 given

---
 tools/env_traversability.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/env_traversability.cpp b/tools/env_traversability.cpp
index 16a6dc7..05fbaf4 100644
--- a/tools/env_traversability.cpp
+++ b/tools/env_traversability.cpp
@@ -10,7 +10,7 @@ using namespace std;
      
 int main( int argc, char* argv[] )
 {
-    if( argc < 2 || argc > 8)
+    if( argc < 3 || argc > 6)
     {
 	std::cout << "usage: env_traversability input maximum_slope [class_count [min_width [ground_clearance]]]" << std::endl;
         std::cout << "  generates a classified map of traversabilities based on the given map (a single map must contain all the necessary bands)" << std::endl;
@@ -41,15 +41,15 @@ int main( int argc, char* argv[] )
 
     double maximum_slope = boost::lexical_cast<double>(argv[2]);
     int class_count = 10;
-    if (argc > 2)
+    if (argc > 3)
         class_count = boost::lexical_cast<int>(argv[3]);
 
     double min_width = 0.5;
-    if (argc > 3)
+    if (argc > 4)
         min_width = boost::lexical_cast<double>(argv[4]);
 
     double ground_clearance = 0;
-    if (argc > 4)
+    if (argc > 5)
         ground_clearance = boost::lexical_cast<double>(argv[5]);
 
     // Create the convertion operator and run it
-- 
2.43.0


From f4a8a9540df34ac623fe6464aa3a58ad7294f5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:35 +0000
Subject: [PATCH 137/159] fix: env_mls_trajectory repeated the last point of
 files that end with a line break

---
 tools/env_mls_trajectory.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tools/env_mls_trajectory.cpp b/tools/env_mls_trajectory.cpp
index 01d77f2..ed8cd1e 100644
--- a/tools/env_mls_trajectory.cpp
+++ b/tools/env_mls_trajectory.cpp
@@ -14,7 +14,7 @@ using namespace std;
      
 int main( int argc, char* argv[] )
 {
-    if( argc < 2 ) 
+    if( argc < 3 ) 
     {
 	std::cout << "usage: env_mls input trajectory" << std::endl;
 	exit(0);
@@ -27,10 +27,9 @@ int main( int argc, char* argv[] )
     // get trajectory
     std::ifstream file( argv[2] );
     
-    while( !file.eof() )
+    double x,y,z;
+    while( file >> x >> y >> z )
     {
-	double x,y,z;
-	file >> x >> y >> z; 
 	Eigen::Vector3d p( x, y, z );
 
 	for( std::vector<MLSGrid*>::iterator it=items.begin(); it != items.end(); it++ )
-- 
2.43.0


From 2864c069671fb73c0b2772a34fd7104ba0bd0388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 138/159] fix: env_grid_add_noise used parameters that were not
 given

---
 tools/env_grid_add_noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/env_grid_add_noise.cpp b/tools/env_grid_add_noise.cpp
index 94e407a..37fba53 100644
--- a/tools/env_grid_add_noise.cpp
+++ b/tools/env_grid_add_noise.cpp
@@ -56,7 +56,7 @@ int main(int argc, char* argv[])
 {
     string input_env, output_env;
     position center, win;
-    float scale, angle, sigma, radius;
+    float scale = 1, angle = 0, sigma = 1, radius = 0;
 
     po::options_description desc("Allowed options");
     desc.add_options()
-- 
2.43.0


From 716f362da5c402c032dacc8b8fab74524d322899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 139/159] fix: MLSSlope did not store its settings

A loaded operator computed with the default thresholds and window.
---
 src/operators/MLSSlope.cpp | 22 ++++++++++++++++++++++
 src/operators/MLSSlope.hpp |  4 ++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index d1e1e0f..42a695a 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -9,6 +9,28 @@ using namespace Eigen;
 
 ENVIRONMENT_ITEM_DEF( MLSSlope )
 
+void MLSSlope::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("corrected_step_threshold", corrected_step_threshold);
+    so.write("use_stddev", use_stddev);
+    so.write("required_measurements_per_patch", required_measurements_per_patch);
+    so.write("window_size", window_size);
+}
+
+void MLSSlope::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("corrected_step_threshold"))
+        so.read("corrected_step_threshold", corrected_step_threshold);
+    if (so.hasKey("use_stddev"))
+        so.read("use_stddev", use_stddev);
+    if (so.hasKey("required_measurements_per_patch"))
+        so.read("required_measurements_per_patch", required_measurements_per_patch);
+    if (so.hasKey("window_size"))
+        so.read("window_size", window_size);
+}
+
 static double const UNKNOWN = -std::numeric_limits<double>::infinity();
     
 /** Returns the highest surface of the cell, free space has none */
diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index e741cd4..0f295ed 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -42,8 +42,8 @@ namespace envire
             , use_stddev(use_stddev)
             , required_measurements_per_patch(required_measurements_per_patch)
             , window_size(1) {}
-	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
-	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
+	void serialize( Serialization &so );
+	void unserialize( Serialization &so );
 
         double computeGradient(double mean0, double mean1, double stdev0, double stdev1);
 	bool updateAll();
-- 
2.43.0


From 0516e8234ab987dbf45e5631132900c99b4294cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 140/159] fix: MLSProjection did not store its settings

A loaded operator forgot its area of interest, the use of negative
information and the uncertainty.
---
 src/operators/MLSProjection.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 5530889..1da7b08 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -16,11 +16,37 @@ MLSProjection::MLSProjection()
 void MLSProjection::serialize(Serialization& so)
 {
     Operator::serialize(so);
+    so.write("use_uncertainty", withUncertainty);
+    so.write("use_negative_information", m_negativeInformation);
+    so.write("default_uncertainty", defaultUncertainty);
+    so.write("use_boundary_box", use_boundary_box);
+    if (use_boundary_box)
+    {
+        so.write("min_x", boundary_box.min().x());
+        so.write("min_y", boundary_box.min().y());
+        so.write("min_z", boundary_box.min().z());
+        so.write("max_x", boundary_box.max().x());
+        so.write("max_y", boundary_box.max().y());
+        so.write("max_z", boundary_box.max().z());
+    }
 }
 
 void MLSProjection::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
+    if (so.hasKey("use_uncertainty"))
+        so.read("use_uncertainty", withUncertainty);
+    if (so.hasKey("use_negative_information"))
+        so.read("use_negative_information", m_negativeInformation);
+    if (so.hasKey("default_uncertainty"))
+        so.read("default_uncertainty", defaultUncertainty);
+    if (so.hasKey("use_boundary_box"))
+        so.read("use_boundary_box", use_boundary_box);
+    if (use_boundary_box)
+        setAreaOfInterest(
+                so.read<double>("min_x"), so.read<double>("max_x"),
+                so.read<double>("min_y"), so.read<double>("max_y"),
+                so.read<double>("min_z"), so.read<double>("max_z"));
 }
 
 
-- 
2.43.0


From 7260bf629b49a07674df2e26c35983c5bb8f6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 141/159] fix: MergePointcloud did not store whether it clears
 its output

---
 src/operators/MergePointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index 3dfa6f6..fccadea 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -25,11 +25,14 @@ MergePointcloud::~MergePointcloud()
 
 void MergePointcloud::serialize(Serialization& so){
     Operator::serialize(so);
+    so.write("clear_output", m_clearOutput);
 }
 
 void MergePointcloud::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
+    if (so.hasKey("clear_output"))
+        so.read("clear_output", m_clearOutput);
 }
 
 void MergePointcloud::addInput(Pointcloud* pc){
-- 
2.43.0


From 482ed7fd05c9de2e1820b6b2b8108dd17ca57c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 142/159] fix: MergeMLS did not store its direction

---
 src/operators/MergeMLS.cpp | 13 +++++++++++++
 src/operators/MergeMLS.hpp |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index 76a2dbf..ae7f54d 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -5,6 +5,19 @@ using namespace envire;
 
 ENVIRONMENT_ITEM_DEF( MergeMLS )
 
+void MergeMLS::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("reverse", reverse);
+}
+
+void MergeMLS::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("reverse"))
+        so.read("reverse", reverse);
+}
+
 bool MergeMLS::updateAll()
 {
     MLSGrid* output = static_cast<envire::MLSGrid*>(*env->getOutputs(this).begin());
diff --git a/src/operators/MergeMLS.hpp b/src/operators/MergeMLS.hpp
index e4fc903..91c0fc9 100644
--- a/src/operators/MergeMLS.hpp
+++ b/src/operators/MergeMLS.hpp
@@ -14,6 +14,9 @@ class MergeMLS : public Operator
 public:
     MergeMLS() : reverse(false) {};
 
+    void serialize(Serialization& so);
+    void unserialize(Serialization& so);
+
     bool updateAll();
 
     void setReverse( bool value ) { reverse = value; }
-- 
2.43.0


From f3195986a55a75cef4309627e701ab4acc8f5ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 143/159] fix: GridIllumination did not store its light and
 band

---
 src/operators/GridIllumination.cpp | 25 +++++++++++++++++++++++++
 src/operators/GridIllumination.hpp |  3 +++
 2 files changed, 28 insertions(+)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index e8cdb3b..bc5793f 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -12,6 +12,31 @@ GridIllumination::GridIllumination()
 {
 }
 
+void GridIllumination::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("light_x", lightSource.x());
+    so.write("light_y", lightSource.y());
+    so.write("light_z", lightSource.z());
+    so.write("light_diameter", lightDiameter);
+    so.write("band_name", band);
+}
+
+void GridIllumination::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("light_x"))
+        so.read("light_x", lightSource.x());
+    if (so.hasKey("light_y"))
+        so.read("light_y", lightSource.y());
+    if (so.hasKey("light_z"))
+        so.read("light_z", lightSource.z());
+    if (so.hasKey("light_diameter"))
+        so.read("light_diameter", lightDiameter);
+    if (so.hasKey("band_name"))
+        so.read("band_name", band);
+}
+
 bool GridIllumination::updateAll()
 {
     // get output grid
diff --git a/src/operators/GridIllumination.hpp b/src/operators/GridIllumination.hpp
index c27b073..e229774 100644
--- a/src/operators/GridIllumination.hpp
+++ b/src/operators/GridIllumination.hpp
@@ -11,6 +11,9 @@ class GridIllumination : public Operator
 
 public:
     GridIllumination();
+    void serialize(Serialization& so);
+    void unserialize(Serialization& so);
+
     bool updateAll();
 
     void setLightSource( const base::Vector3d& ls, double diameter = 0.0 );
-- 
2.43.0


From d0ba76a87c7d38ceabd5dfd80382d4fd84f46712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 144/159] fix: FoldOperator did not store the size of the
 neighbourhood

---
 src/operators/Fold.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index 91d6985..b81be25 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -16,6 +16,19 @@ public:
     
     FoldOperator(): neighbourhood(0) {};
     
+    void serialize(Serialization& so)
+    {
+        Operator::serialize(so);
+        so.write("neighbourhood", neighbourhood);
+    }
+
+    void unserialize(Serialization& so)
+    {
+        Operator::unserialize(so);
+        if (so.hasKey("neighbourhood"))
+            so.read("neighbourhood", neighbourhood);
+    }
+
     void setNeightbourHoodSize(size_t size)
     {
         neighbourhood = size;
-- 
2.43.0


From 885ee7d4b834dda00ce7aca97a44d72f56e0315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 145/159] fix: TraversabilityGrassfire did not store its
 configuration

---
 src/operators/TraversabilityGrassfire.cpp | 31 +++++++++++++++++++++++
 src/operators/TraversabilityGrassfire.hpp |  3 +++
 2 files changed, 34 insertions(+)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index a18db8e..ffaa12e 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -6,6 +6,37 @@ using envire::Grid;
 
 ENVIRONMENT_ITEM_DEF( TraversabilityGrassfire );
 
+void TraversabilityGrassfire::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("maxStepHeight", config.maxStepHeight);
+    so.write("maxSlope", config.maxSlope);
+    so.write("robotHeight", config.robotHeight);
+    so.write("numTraversabilityClasses", config.numTraversabilityClasses);
+    so.write("numNominalMeasurements", config.numNominalMeasurements);
+    so.write("outliertFilterMinMeasurements", config.outliertFilterMinMeasurements);
+    so.write("outliertFilterMaxStdDev", config.outliertFilterMaxStdDev);
+}
+
+void TraversabilityGrassfire::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("maxStepHeight"))
+        so.read("maxStepHeight", config.maxStepHeight);
+    if (so.hasKey("maxSlope"))
+        so.read("maxSlope", config.maxSlope);
+    if (so.hasKey("robotHeight"))
+        so.read("robotHeight", config.robotHeight);
+    if (so.hasKey("numTraversabilityClasses"))
+        so.read("numTraversabilityClasses", config.numTraversabilityClasses);
+    if (so.hasKey("numNominalMeasurements"))
+        so.read("numNominalMeasurements", config.numNominalMeasurements);
+    if (so.hasKey("outliertFilterMinMeasurements"))
+        so.read("outliertFilterMinMeasurements", config.outliertFilterMinMeasurements);
+    if (so.hasKey("outliertFilterMaxStdDev"))
+        so.read("outliertFilterMaxStdDev", config.outliertFilterMaxStdDev);
+}
+
 int slopeTooHigh = 0;
 int stepTooHigh = 0;
 int totalCnt = 0;
diff --git a/src/operators/TraversabilityGrassfire.hpp b/src/operators/TraversabilityGrassfire.hpp
index 4a5af3d..397cbf5 100644
--- a/src/operators/TraversabilityGrassfire.hpp
+++ b/src/operators/TraversabilityGrassfire.hpp
@@ -33,6 +33,9 @@ public:
         double outliertFilterMaxStdDev;
     };
     
+    void serialize(Serialization& so);
+    void unserialize(Serialization& so);
+
     virtual bool updateAll();
 
     void setStartPosition(Eigen::Vector3d startPos);
-- 
2.43.0


From 9380cc7ded8c930901431b4ee947bfeda103eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 146/159] fix: TraversabilityGrowClasses did not store the
 radius

---
 src/operators/TraversabilityGrowClasses.cpp | 13 +++++++++++++
 src/operators/TraversabilityGrowClasses.hpp |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 7efc36d..0a96944 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -4,6 +4,19 @@ using namespace envire;
 
 ENVIRONMENT_ITEM_DEF( TraversabilityGrowClasses );
 
+void TraversabilityGrowClasses::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("radius", radius);
+}
+
+void TraversabilityGrowClasses::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("radius"))
+        so.read("radius", radius);
+}
+
 void envire::TraversabilityGrowClasses::setRadius(double radius)
 {
     this->radius = radius;
diff --git a/src/operators/TraversabilityGrowClasses.hpp b/src/operators/TraversabilityGrowClasses.hpp
index f74ea01..6e17b2a 100644
--- a/src/operators/TraversabilityGrowClasses.hpp
+++ b/src/operators/TraversabilityGrowClasses.hpp
@@ -13,6 +13,9 @@ public:
     {
     }
 
+    void serialize(Serialization& so);
+    void unserialize(Serialization& so);
+
     virtual bool updateAll();
     
     void setRadius(double radius);
-- 
2.43.0


From ac1b176f7fa7d02b4c32f78dbc05a5b90882d87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 147/159] fix: DistanceGridToPointcloud did not store its
 settings

---
 src/operators/DistanceGridToPointcloud.cpp | 16 ++++++++++++++++
 src/operators/DistanceGridToPointcloud.hpp |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/operators/DistanceGridToPointcloud.cpp b/src/operators/DistanceGridToPointcloud.cpp
index 0033d32..ed83dbf 100644
--- a/src/operators/DistanceGridToPointcloud.cpp
+++ b/src/operators/DistanceGridToPointcloud.cpp
@@ -9,6 +9,22 @@ using namespace envire;
 
 ENVIRONMENT_ITEM_DEF( DistanceGridToPointcloud )
 
+void DistanceGridToPointcloud::serialize(Serialization& so)
+{
+    Operator::serialize(so);
+    so.write("uncertainty_factor", uncertaintyFactor);
+    so.write("max_distance", maxDistance);
+}
+
+void DistanceGridToPointcloud::unserialize(Serialization& so)
+{
+    Operator::unserialize(so);
+    if (so.hasKey("uncertainty_factor"))
+        so.read("uncertainty_factor", uncertaintyFactor);
+    if (so.hasKey("max_distance"))
+        so.read("max_distance", maxDistance);
+}
+
 bool DistanceGridToPointcloud::updateAll()
 {
     //if( env->getInputs(this).size() != 1 || env->getOutputs(this).size() != 1 )
diff --git a/src/operators/DistanceGridToPointcloud.hpp b/src/operators/DistanceGridToPointcloud.hpp
index 1ab4877..092608a 100644
--- a/src/operators/DistanceGridToPointcloud.hpp
+++ b/src/operators/DistanceGridToPointcloud.hpp
@@ -11,8 +11,8 @@ namespace envire
 	
     public:
 	DistanceGridToPointcloud() : uncertaintyFactor(0.1), maxDistance(10.0) {};
-	void serialize( Serialization& so ) { Operator::serialize( so ); }
-	void unserialize( Serialization& so ) { Operator::unserialize( so ); }
+	void serialize( Serialization& so );
+	void unserialize( Serialization& so );
 
 	bool updateAll();
 
-- 
2.43.0


From 05368dca3cb492f632411304c725d91538e6132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:04 +0000
Subject: [PATCH 148/159] fix: ScanMeshing stored only some of its settings

---
 src/operators/ScanMeshing.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 2154e8d..67f9c35 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -31,6 +31,10 @@ void ScanMeshing::serialize(Serialization& so)
     so.write("maxEdgeLength", maxEdgeLength ); 
     so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
+    so.write("maxRange", maxRange);
+    so.write("remissionMarkerThreshold", remissionMarkerThreshold);
+    so.write("useRemission", _useRemission);
+    so.write("extractMarkers", extractMarkers);
 }
 
 void ScanMeshing::unserialize(Serialization& so)
@@ -39,6 +43,14 @@ void ScanMeshing::unserialize(Serialization& so)
     so.read("maxEdgeLength", maxEdgeLength ); 
     so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
+    if (so.hasKey("maxRange"))
+        so.read("maxRange", maxRange);
+    if (so.hasKey("remissionMarkerThreshold"))
+        so.read("remissionMarkerThreshold", remissionMarkerThreshold);
+    if (so.hasKey("useRemission"))
+        so.read("useRemission", _useRemission);
+    if (so.hasKey("extractMarkers"))
+        so.read("extractMarkers", extractMarkers);
 }
 
 void ScanMeshing::useRemission( bool value )
-- 
2.43.0


From a21bfc995fb632c22cc835090809c447e488df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 149/159] fix: MergeMLS accessed a missing output and did not
 report the change

---
 src/operators/MergeMLS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index ae7f54d..9a72442 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -20,8 +20,9 @@ void MergeMLS::unserialize(Serialization& so)
 
 bool MergeMLS::updateAll()
 {
-    MLSGrid* output = static_cast<envire::MLSGrid*>(*env->getOutputs(this).begin());
-    assert(output);
+    MLSGrid* output = getOutput<MLSGrid*>();
+    if( !output )
+	throw std::runtime_error("MergeMLS needs an MLSGrid as output");
 
     // get the maps from the input
     // inputs can either be grids directly, or maps which
@@ -138,5 +139,7 @@ bool MergeMLS::updateAll()
 	}
     }
 
+    env->itemModified( output );
+
     return true;
 }
-- 
2.43.0


From 0faf80d4a2437c102071a0b2d6eff3890b57c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 150/159] fix: missing or too long matrices in a scene were
 read beyond their memory

---
 src/core/Serialization.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 300d65f..7e49f05 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -241,7 +241,7 @@ bool Serialization::read(const std::string& key, Transform &value)
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
     int i=0;
@@ -250,6 +250,9 @@ bool Serialization::read(const std::string& key, Transform &value)
     {
         std::string t(yamlSerialization->getScalar( *item ) );
 
+        if( i >= value.matrix().rows() * value.matrix().cols() )
+            throw std::runtime_error("matrix dimension incompatible");
+
         value( i / value.matrix().rows(), i % value.matrix().rows() ) =
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
@@ -266,7 +269,7 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
     int i=0;
@@ -275,6 +278,9 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
     {
         std::string t(yamlSerialization->getScalar( *item ) );
 
+        if( i >= value.rows() * value.cols() )
+            throw std::runtime_error("matrix dimension incompatible");
+
         value( i / value.rows(), i % value.rows() ) =
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
-- 
2.43.0


From e124030aa0559f49048623787ff78636f183a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 151/159] fix: damaged scenes ended in assertions

---
 src/core/Serialization.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7e49f05..f42c519 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -120,7 +120,8 @@ int YAMLSerializationImpl::findNodeInMap( int map_index, const std::string &key
 {
     yaml_node_t *map = getNode( map_index );
 
-    assert( map->type == YAML_MAPPING_NODE );
+    if( !map || map->type != YAML_MAPPING_NODE )
+        throw std::runtime_error("not a mapping node");
 
     int node = 0;
 
@@ -563,8 +564,9 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			env->attachItem( envItem );
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
-			    env->rootNode = dynamic_cast<FrameNode *>(envItem);
-			    assert(env->rootNode);
+			    if( !dynamic_cast<FrameNode *>(envItem) )
+				throw std::runtime_error("the root node is not a frame node");
+			    env->rootNode = static_cast<FrameNode *>(envItem);
 			}
 			
                         std::string currentID = envItem->getUniqueIdSuffix();
-- 
2.43.0


From f50773ac77a6a74a15cd6b62828800b4ba15c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 152/159] fix: loading a damaged scene left the items and files
 loaded so far behind

A scene without a root node also resulted in an environment which used
a node that did not exist any more.
---
 src/core/Serialization.cpp | 64 +++++++++++++++++++++++++-------------
 src/core/Serialization.hpp | 10 +++++-
 2 files changed, 51 insertions(+), 23 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index f42c519..14e7bae 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -498,6 +498,34 @@ static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char
     return map;
 }
 
+// releases everything that is in use while a scene is loaded, also if loading
+// it fails
+struct SceneInput
+{
+    YAMLSerializationImpl* yaml;
+    FILE* file;
+    std::vector<std::ifstream*>& streams;
+    Environment* env;
+    bool hasDocument;
+
+    SceneInput( YAMLSerializationImpl* yaml, FILE* file, std::vector<std::ifstream*>& streams )
+	: yaml( yaml ), file( file ), streams( streams ), env( NULL ), hasDocument( false ) {}
+
+    ~SceneInput()
+    {
+	delete env;
+
+	if( hasDocument )
+	    yaml_document_delete(&yaml->document);
+	yaml_parser_delete(&yaml->parser);
+	fclose(file);
+
+	for(std::vector<std::ifstream*>::iterator it = streams.begin(); it != streams.end(); it++)
+	    delete *it;
+	streams.clear();
+    }
+};
+
 Environment* FileSerialization::readFromFile( const std::string& path )
 {
     Environment* env;
@@ -505,6 +533,10 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     int64_t lastID = 0;
 
     FILE *input = fopen(path.c_str(), "rb");
+    if( !input )
+	throw std::runtime_error("envire: could not open " + path);
+
+    SceneInput scene( yamlSerialization, input, ifstreams );
     yaml_parser_initialize(&yamlSerialization->parser);
     yaml_parser_set_input_file(&yamlSerialization->parser, input);
 
@@ -514,15 +546,12 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
-	// doubled the cleanup code... not nice.
-	yaml_parser_delete(&yamlSerialization->parser);
-	fclose(input);
-
 	std::cerr << path << ":" 
 	    << yamlSerialization->parser.problem_mark.line << ":"
 	    << yamlSerialization->parser.problem;
 	throw std::runtime_error("error parsing yaml stream.");
     }
+    scene.hasDocument = true;
 
     // do the extraction now
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
@@ -531,9 +560,11 @@ Environment* FileSerialization::readFromFile( const std::string& path )
     {
 	// create a new environment
 	env = new Environment();
+	scene.env = env;
 	// and remove the root node
 	EnvironmentItem* rootNode = env->getRootNode();
 	env->detachItem( rootNode );
+	env->rootNode = NULL;
 
 	// browse root mapping for object or links	
 	for(yaml_node_pair_t* pair=root->data.mapping.pairs.start;
@@ -561,6 +592,8 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			EnvironmentItem* envItem = 
 			    SerializationFactory::createObject(className, *this);
 
+			// the item is lost if it can't be attached
+			EnvironmentItem::Ptr itemPtr( envItem );
 			env->attachItem( envItem );
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
@@ -630,27 +663,14 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	throw std::runtime_error("empty document.");
     }
 
+    if( !env->rootNode )
+	throw std::runtime_error("the scene has no root node.");
+
     lastID++;
     env->last_id = lastID;
 
-    // clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    fclose(input);
-    
-    // close and delete ifstreams
-    if(ifstreams.size() > 0)
-    {
-        for(std::vector<std::ifstream*>::iterator it = ifstreams.begin(); it != ifstreams.end(); it++)
-        {
-            if((*it)->is_open())
-            {
-                (*it)->close();
-            }
-            delete *it;
-        }
-        ifstreams.clear();
-    }
+    // the environment is complete, and belongs to the caller now
+    scene.env = NULL;
 
     return env;
 }
diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index d1f056c..31a20a1 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -20,7 +20,15 @@ namespace envire
     template<class T> EnvironmentItem* createItem(Serialization &so) 
     {
         T* o = new T();
-        o->unserialize(so);
+        try
+        {
+            o->unserialize(so);
+        }
+        catch( ... )
+        {
+            delete o;
+            throw;
+        }
         return o;
     }
     
-- 
2.43.0


From 9f12054cdabcb8d5339437379591dad97282660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 153/159] fix: scenes with repeated or circular links were
 loaded as such

---
 src/core/Serialization.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 14e7bae..38d36d9 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -498,6 +498,14 @@ static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char
     return map;
 }
 
+/** @return true if the node is the given one or one of those below it */
+static bool isBelow(Environment* env, FrameNode* node, FrameNode* top)
+{
+    while( node && node != top )
+	node = env->getParent( node );
+    return node;
+}
+
 // releases everything that is in use while a scene is loaded, also if loading
 // it fails
 struct SceneInput
@@ -620,30 +628,34 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "frameNodeTree" )
 			{
-			    env->frameNodeTree.insert( make_pair( 
-					getMap<FrameNode>(yamlSerialization, env, "child"), 
-					getMap<FrameNode>(yamlSerialization, env, "parent") ) );
+			    FrameNode* child = getMap<FrameNode>(yamlSerialization, env, "child");
+			    FrameNode* parent = getMap<FrameNode>(yamlSerialization, env, "parent");
+			    if( isBelow( env, parent, child ) )
+				throw std::runtime_error("the frame node " + child->getUniqueId() + " is below itself");
+			    env->addChild( parent, child );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "layerTree" )
 			{
-			    env->layerTree.insert( make_pair( 
-                                        getMap<Layer>(yamlSerialization, env, "child"),
-                                        getMap<Layer>(yamlSerialization, env, "parent") ));
+			    Layer* child = getMap<Layer>(yamlSerialization, env, "child");
+			    Layer* parent = getMap<Layer>(yamlSerialization, env, "parent");
+			    if( parent == child )
+				throw std::runtime_error("the layer " + child->getUniqueId() + " is below itself");
+			    env->addChild( parent, child );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphInput" )
 			{
-			    env->operatorGraphInput.insert( make_pair( 
+			    env->addInput(
                                         getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Layer>(yamlSerialization, env, "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphOutput" )
 			{
-			    env->operatorGraphOutput.insert( make_pair( 
+			    env->addOutput(
                                         getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Layer>(yamlSerialization, env, "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "cartesianMapGraph" )
-- 
2.43.0


From 8641d4daef53b9313be4938f554478d437d7835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 154/159] fix: empty ids in a scene were accessed beyond their
 end

---
 src/core/Environment.cpp   | 2 +-
 src/core/Serialization.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index f4070a8..5cf13a8 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -117,7 +117,7 @@ void EnvironmentItem::unserialize(Serialization &so)
     so.read( "id", unique_id );
 
     // For backward compatibility
-    if (*unique_id.begin() != '/')
+    if (unique_id.empty() || *unique_id.begin() != '/')
         unique_id = "/" + unique_id;
 
     so.read( "label", label );
diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 38d36d9..bb349f7 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -489,7 +489,7 @@ template<typename MapType>
 static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char* key)
 {
     std::string map_id = yaml->getScalarInMap<std::string>(key);
-    if (*map_id.begin() != '/')
+    if (map_id.empty() || *map_id.begin() != '/')
         map_id = "/" + map_id;
 
     MapType* map = env->getItem<MapType>(map_id).get();
-- 
2.43.0


From 2d8bf969c7db01239bcdf7e36cdb026c48b6cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:06 +0000
Subject: [PATCH 155/159] fix: damaged binary events crashed, and left streams
 for the next event

---
 src/core/Serialization.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index bb349f7..adcb118 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -747,17 +747,31 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
-        yaml_parser_delete(&yamlSerialization->parser);
-
         std::cerr << bin_item.className << " " << bin_item.id_a << ":" 
             << yamlSerialization->parser.problem_mark.line << ":"
             << yamlSerialization->parser.problem;
+        yaml_parser_delete(&yamlSerialization->parser);
         throw std::runtime_error("error parsing yaml stream.");
     }
     
+    // release everything in use, also if the event is damaged
+    struct EventInput
+    {
+        BinarySerialization& serialization;
+        EventInput( BinarySerialization& serialization ) : serialization( serialization ) {}
+        ~EventInput()
+        {
+            yaml_document_delete(&serialization.yamlSerialization->document);
+            yaml_parser_delete(&serialization.yamlSerialization->parser);
+            serialization.cleanUp();
+        }
+    } input( *this );
+
     // set up yaml node
     yamlSerialization->current_node = -1;
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
+    if( !root || root->type != YAML_SEQUENCE_NODE )
+        throw std::runtime_error("can't find any item in yaml stream.");
     for(yaml_node_item_t* item=root->data.sequence.items.start;
             item < root->data.sequence.items.top; item++)
     {
@@ -786,14 +800,7 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     }
     
     // unserialize envire item
-    EnvironmentItem* item = SerializationFactory::createObject(bin_item.className, *this);
-    
-    //clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    cleanUp();
-    
-    return item;
+    return SerializationFactory::createObject(bin_item.className, *this);
 }
 
 static int appendToVector(void *data, unsigned char *buffer, size_t size)
-- 
2.43.0


From b7b1f730b49251640c5c7ae24e5d8972e163303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 156/159] fix: events that relate items of the wrong type
 accessed them as that type

---
 src/core/Event.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index fc79020..d1d6f94 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -248,11 +248,27 @@ struct ApplyEventHelper : public EventDispatcher
 
 };
 
+/** the items are looked up by id, so they may be of any type */
+template <class T>
+static void checkType( const EnvironmentItem* item )
+{
+    if( item && !dynamic_cast<const T*>( item ) )
+	throw std::runtime_error("Event could not be applied. Item " + item->getUniqueId() + " is of the wrong type.");
+}
+
 void Event::apply( Environment* env ) const
 {
     EnvironmentItem *a = env->getItem( id_a ).get();
     EnvironmentItem *b = env->getItem( id_b ).get();
 
+    switch( type )
+    {
+	case event::FRAMENODE_TREE: checkType<FrameNode>( a ); checkType<FrameNode>( b ); break;
+	case event::LAYER_TREE: checkType<Layer>( a ); checkType<Layer>( b ); break;
+	case event::FRAMENODE: checkType<CartesianMap>( a ); checkType<FrameNode>( b ); break;
+	default: break;
+    }
+
     ApplyEventHelper helper( *this, *env );
     EventDispatcher::dispatch( type, operation, a, b, &helper );
 }
-- 
2.43.0


From 574cbf6ae9f74dd09fa40a748a9a54947ad5ac85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:16 +0000
Subject: [PATCH 157/159] fix: events that relate an item to itself ended in
 assertions

---
 src/core/Event.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index d1d6f94..7f1d691 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -269,6 +269,9 @@ void Event::apply( Environment* env ) const
 	default: break;
     }
 
+    if( (type == event::FRAMENODE_TREE || type == event::LAYER_TREE) && operation == event::ADD && a && a == b )
+	throw std::runtime_error("Event could not be applied. Item " + a->getUniqueId() + " can't be related to itself.");
+
     ApplyEventHelper helper( *this, *env );
     EventDispatcher::dispatch( type, operation, a, b, &helper );
 }
-- 
2.43.0


From f152a40bce3ed517c109a5a36a64b6635af6738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:20 +0000
Subject: [PATCH 158/159] fix: binary events without data ended in an assertion

---
 src/core/Serialization.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index adcb118..44c21e0 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -741,6 +741,9 @@ void BinarySerialization::applyEvent(envire::Environment* env, const EnvireBinar
 
 EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryEvent& bin_item)
 {
+    if( bin_item.yamlProperties.empty() )
+        throw std::runtime_error("the event contains no item.");
+
     // set up yaml document
     yaml_parser_initialize(&yamlSerialization->parser);
     
-- 
2.43.0


From 7739c77708ca590177c3c951ebec2623adcd7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:30 +0000
Subject: [PATCH 159/159] fix: environments that could not be written
 completely were reported as saved

---
 src/core/Serialization.cpp | 73 +++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 44c21e0..fc9e5d9 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -332,6 +332,7 @@ std::istream& FileSerialization::getBinaryInputStream(const std::string &filenam
     std::ifstream *is = new std::ifstream(fileDir.string().c_str());
     if( !is->is_open() || is->fail() )
     {
+        delete is;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ifstreams.push_back(is);
@@ -345,12 +346,55 @@ std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filena
     std::ofstream *os = new std::ofstream(fileDir.string().c_str());
     if( !os->is_open() || os->fail() )
     {
+        delete os;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ofstreams.push_back(os);
     return *os;
 }
 
+// releases everything that is in use while a scene is written, also if writing
+// it fails
+struct SceneOutput
+{
+    YAMLSerializationImpl* yaml;
+    FILE* file;
+    std::vector<std::ofstream*>& streams;
+
+    SceneOutput( YAMLSerializationImpl* yaml, FILE* file, std::vector<std::ofstream*>& streams )
+	: yaml( yaml ), file( file ), streams( streams ) {}
+
+    ~SceneOutput()
+    {
+	for(vector<yaml_char_t*>::iterator it=yaml->buffers.begin();it<yaml->buffers.end();it++)
+	    delete[] *it;
+	yaml->buffers.clear();
+
+	yaml_emitter_delete(&yaml->emitter);
+	yaml_document_delete(&yaml->document);
+	close();
+    }
+
+    /** @return true if everything has been written */
+    bool close()
+    {
+	bool result = true;
+	if( file && fclose(file) != 0 )
+	    result = false;
+	file = NULL;
+
+	for(std::vector<std::ofstream*>::iterator it = streams.begin(); it != streams.end(); it++)
+	{
+	    (*it)->close();
+	    if( (*it)->fail() )
+		result = false;
+	    delete *it;
+	}
+	streams.clear();
+	return result;
+    }
+};
+
 bool FileSerialization::writeToFile( Environment *env, const std::string &path )
 {
     yaml_emitter_initialize(&yamlSerialization->emitter);
@@ -367,6 +411,7 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
 	fclose( output );
 	throw std::runtime_error("could not generate yaml document");
     }
+    SceneOutput scene( yamlSerialization, output, ofstreams );
     
     // same as with readFile, creating a dom structure for new is easier.
     int obj_id, link_id, root_id;
@@ -456,32 +501,12 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
     // So what we have to do is extract a list of all the scalars here and free them
     // afterwards
 
-    int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
+    bool result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
 
-    for(vector<yaml_char_t*>::iterator it=yamlSerialization->buffers.begin();it<yamlSerialization->buffers.end();it++)
-    {
-	delete[] *it;
-    }
-    yamlSerialization->buffers.clear();
+    // what can't be written may only show when the files are closed
+    if( !scene.close() || !result )
+	throw std::runtime_error("envire: could not write all of the scene " + path);
 
-    yaml_emitter_delete(&yamlSerialization->emitter);
-    yaml_document_delete(&yamlSerialization->document);
-    fclose( output );
-    
-    // close and delete ofstreams
-    if(ofstreams.size() > 0)
-    {
-        for(std::vector<std::ofstream*>::iterator it = ofstreams.begin(); it != ofstreams.end(); it++)
-        {
-            if((*it)->is_open())
-            {
-                (*it)->close();
-            }
-            delete *it;
-        }
-        ofstreams.clear();
-    }
-    
     return result;
 }
 
-- 
2.43.0

