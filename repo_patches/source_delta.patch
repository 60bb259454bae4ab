From 7a5aa89197ebdbed1c839a49c6facda26cc50de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:00 +0000
Subject: [PATCH 01/55] fix: evaluate every condition of a group each step, so
 that edges and delays do not depend on the order of the conditions

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp  | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..8675baf 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -326,12 +326,9 @@ bool ConditionGroup::Evaluate(double sim_time)
     for (size_t i = 0; i < condition_.size(); i++)
     {
         // AND operator, all must be true
-        if (result == true || condition_[i]->delay_ > 0.0)
-        {
-            // When at least one condition in the group is false,
-            // only conditions with timer needs to be evaluated
-            result &= condition_[i]->Evaluate(sim_time);
-        }
+        // Evaluate all conditions every step, also when the result is already known to be false,
+        // since edges and delays are based on the value history of the individual condition
+        result &= condition_[i]->Evaluate(sim_time);
     }
 
     return result;
-- 
2.43.0


From e1a0cb7c7934c72795ec171f5be047605b8252dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:56 +0000
Subject: [PATCH 02/55] fix: keep storyboard element state when a state
 condition is reset

TrigByState::Reset dropped state changes not yet evaluated, leaving the
condition with an outdated state of the monitored element.
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 8675baf..a9afef7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -580,7 +580,12 @@ std::string TrigByState::CondElementState2Str(CondElementState state)
 
 void TrigByState::Reset()
 {
-    state_change_.clear();
+    if (!state_change_.empty())
+    {
+        // keep track of current state of the monitored element, changes might have been registered since last evaluation
+        latest_state_change_ = state_change_.back();
+        state_change_.clear();
+    }
     OSCCondition::Reset();
 }
 
-- 
2.43.0


From cae275654853a3e9b9ef0f9c52a15df9ef2a3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:24 +0000
Subject: [PATCH 03/55] fix: evaluate entity conditions for each triggering
 entity on its own

With rule 'all' an undefined time headway or time to collision did not count
as false, and reach position, collision, end of road, stand still and off road
conditions carried the result or duration of one entity over to the next.
The orientation of a reach position condition is compared as angle, and
logging it does not assume a triggering entity.
---
 .../OSCTypeDefs/OSCCondition.cpp              | 47 +++++++++++--------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index a9afef7..35acfb1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -766,16 +766,16 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             hwt_ = fabs(rel_dist / trigObj->speed_);
 
             result = EvaluateRule(hwt_, value_, rule_);
+        }
 
-            if (result == true)
-            {
-                triggered_by_entities_.push_back(trigObj);
-            }
+        if (result == true)
+        {
+            triggered_by_entities_.push_back(trigObj);
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -844,16 +844,16 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
         if (ttc_ >= 0.0)
         {
             result = EvaluateRule(ttc_, value_, rule_);
+        }
 
-            if (result == true)
-            {
-                triggered_by_entities_.push_back(trigObj);
-            }
+        if (result == true)
+        {
+            triggered_by_entities_.push_back(trigObj);
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -895,6 +895,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             LOG_ERROR_AND_QUIT("missing road manager position");
         }
         pos->EvaluateRelation();
+        result = false;
 
         dist_ = fabs(trigObj->pos_.getRelativeDistance(pos->GetX(), pos->GetY(), dist_x, dist_y));
         if (dist_ < tolerance_)  // dist may reach half lane width, since offset of relative position is 0
@@ -902,8 +903,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
@@ -934,7 +936,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
 std::string TrigByReachPosition::GetAdditionalLogInfo()
 {
-    if (checkOrientation_)
+    if (checkOrientation_ && !triggered_by_entities_.empty())
     {
         return fmt::format("distance {:.2f} < tolerance ({:.2f}), orientation [{:.2f}, {:.2f}, {:.2f}] (tolerance {:.2f}), edge: {}",
                            dist_,
@@ -1067,6 +1069,8 @@ bool TrigByCollision::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (object_ && object_->IsActive())
         {
             if (trigObj->Collision(object_))
@@ -1203,6 +1207,9 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result            = false;
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1246,6 +1253,7 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1287,6 +1295,7 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
-- 
2.43.0


From 1be832a7fa217eef899c53710f0417b4c5744d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 04/55] fix: free space distance along road is zero also when
 one bounding box spans the other

---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 48 +++++--------------
 1 file changed, 12 insertions(+), 36 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..bb2e6d7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -977,14 +977,11 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
         }
     }
 
-    // Find long and lat max values
-    double maxDS = 0.0;
-    double minDS = LARGE_NUMBER;
-    double maxDT = 0.0;
-    double minDT = LARGE_NUMBER;
-
-    double ds[4][4];  // delta s between every vertex on first bb to every vertex on second bb
-    double dt[4][4];  // delta t between every vertex on first bb to every vertex on second bb
+    // Find smallest distance and the signed range of distances between vertices, long and lat respectively
+    double minDS      = LARGE_NUMBER;
+    double minDT      = LARGE_NUMBER;
+    double rangeDS[2] = {LARGE_NUMBER, -LARGE_NUMBER};
+    double rangeDT[2] = {LARGE_NUMBER, -LARGE_NUMBER};
 
     for (int i = 0; i < 4; i++)  // for each vertex of first BBs
     {
@@ -994,8 +991,6 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
             {
                 return -1;
             }
-            ds[i][j] = posDiff->ds;
-            dt[i][j] = posDiff->dt;
 
             if ((i == 0 && j == 0) || fabs(posDiff->ds) < fabs(minDS))
             {
@@ -1007,35 +1002,16 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
                 minDT = posDiff->dt;
             }
 
-            if ((i == 0 && j == 0) || fabs(posDiff->ds) > fabs(maxDS))
-            {
-                maxDS = posDiff->ds;
-            }
-
-            if ((i == 0 && j == 0) || fabs(posDiff->dt) > fabs(maxDT))
-            {
-                maxDT = posDiff->dt;
-            }
+            rangeDS[0] = MIN(rangeDS[0], posDiff->ds);
+            rangeDS[1] = MAX(rangeDS[1], posDiff->ds);
+            rangeDT[0] = MIN(rangeDT[0], posDiff->dt);
+            rangeDT[1] = MAX(rangeDT[1], posDiff->dt);
         }
     }
 
-    posDiff->ds = minDS;
-    posDiff->dt = minDT;
-
-    // Check for overlap
-    for (int i = 0; i < 4; i++)  // for each ds
-    {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
-        {
-            // Overlap
-            posDiff->ds = 0.0;
-        }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
-        {
-            // Overlap
-            posDiff->dt = 0.0;
-        }
-    }
+    // Overlap if not all vertices of one BB are on the same side of all vertices of the other
+    posDiff->ds = SIGN(rangeDS[0]) == SIGN(rangeDS[1]) ? minDS : 0.0;
+    posDiff->dt = SIGN(rangeDT[0]) == SIGN(rangeDT[1]) ? minDT : 0.0;
 
     return 0;
 }
-- 
2.43.0


From 9d20d40639eefac33f29c13a1bad1398c290f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 05/55] fix: free space distance to and from articulated
 vehicles

Find the front vehicle of the target without looping forever, and measure to each of its trailers.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index bb2e6d7..063a273 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1050,7 +1050,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1107,7 +1107,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1122,7 +1122,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From c3e51d50988f5042d4f42f031a9fb2323c6d45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:35 +0000
Subject: [PATCH 06/55] fix: time to collision for a standing vehicle with a
 moving target

The sign of the relative speed was derived from the own speed, which has no
sign at stand still: an approaching target gave no time to collision and a
leaving one did.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 063a273..4f8a81b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1362,7 +1362,11 @@ int Object::TimeToCollision(Object*                           target,
                                                                rel_vel[0],
                                                                rel_vel[1]);
 
-        rel_speed = SIGN(this->GetSpeed()) * SIGN(proj_speed) * (proj_speed - fabs(target->GetSpeed()));
+        // Distance is measured along own heading, find out whether target moves in that direction (also when standing still)
+        int direction =
+            SIGN(GetDotProduct2D(cos(this->pos_.GetH()), sin(this->pos_.GetH()), target->pos_.GetVelX(), target->pos_.GetVelY()));
+
+        rel_speed = direction * (proj_speed - fabs(target->GetSpeed()));
     }
 
     // TTC not defined for cases:
-- 
2.43.0


From ea69495e5e886f0b77e316585840757d37290d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:19 +0000
Subject: [PATCH 07/55] fix: speed action over distance keeps its distance when
 executed again

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 10 +++++++++-
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp    |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..87e262a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1198,9 +1198,15 @@ void LongSpeedAction::Start(double simTime)
         // Convert to time, since speed shape is expected over time, not distance (as in lane change case)
         // special cased when speed changes sign:
 
+        if (duration_ < 0.0 || !NEAR_NUMBERS(transition_.GetParamTargetVal(), duration_))
+        {
+            // not yet converted, save distance for any later execution of the action
+            distance_ = transition_.GetParamTargetVal();
+        }
+
         double v0   = transition_.GetStartVal();
         double v1   = target_->GetValue();
-        double dist = transition_.GetParamTargetVal();
+        double dist = distance_;
 
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
@@ -1231,6 +1237,8 @@ void LongSpeedAction::Start(double simTime)
             // => time = 2*distance/(v_init + v_end)
             transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
         }
+
+        duration_ = transition_.GetParamTargetVal();
     }
 
     transition_.SetTargetVal(ABS_LIMIT(target_->GetValue(), object_->performance_.maxSpeed));
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..7b4cbc5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -260,6 +260,8 @@ namespace scenarioengine
 
         std::shared_ptr<Target> target_;
         bool                    target_speed_reached_;
+        double                  distance_ = 0.0;   // specified distance, before conversion to time
+        double                  duration_ = -1.0;  // time resulting from the conversion
 
         LongSpeedAction(StoryBoardElement* parent)
             : OSCPrivateAction(OSCPrivateAction::ActionType::LONG_SPEED, parent, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
@@ -277,6 +279,8 @@ namespace scenarioengine
             target_               = action.target_;
             transition_           = action.transition_;
             target_speed_reached_ = action.target_speed_reached_;
+            distance_             = action.distance_;
+            duration_             = action.duration_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0


From d69054f8c7d7598b7d906c84cd6979e61bde0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 08/55] fix: poly3 geometry froze before its end unless its
 length was a multiple of 10 m

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..27ba6e3 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1072,7 +1072,7 @@ void Poly3::EvaluateDSLocal(double ds, double& u, double& v) const
     else if (ds > SMALL_NUMBER)
     {
         double distTmp = 0;
-        for (double uTmp = 0; uTmp < length_; uTmp += steplen)
+        for (double uTmp = 0; uTmp < length_ + steplen; uTmp += steplen)  // last step reaches beyond the end of the curve
         {
             double vTmp  = poly3_.Evaluate(uTmp);
             double delta = sqrt((uTmp - u) * (uTmp - u) + (vTmp - v) * (vTmp - v));
-- 
2.43.0


From c2bcf9d231121d19458fdf02e72233087acf4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:51 +0000
Subject: [PATCH 09/55] fix: no pitch left over from the superelevation of a
 previous road

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 27ba6e3..fe7005b 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3509,7 +3509,8 @@ bool Road::UpdateRollByS(double s, double* roadSuperElevationPrim, double* roll,
     }
     else
     {
-        *roll = 0.0;
+        *roll                   = 0.0;
+        *roadSuperElevationPrim = 0.0;
     }
 
     return false;
-- 
2.43.0


From 1d747c9540595d2105285f91126c2e3902e66094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:02 +0000
Subject: [PATCH 10/55] fix: place a position in the requested lane, not in one
 linked from its previous lane section

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 6 +++++-
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..1440c2b 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1248,7 +1248,11 @@ extern "C"
             return -1;
         }
 
-        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset);
+        // look up the lane section by s, the reported lane should not be resolved via links from the lane of the current position
+        roadmanager::Road *road             = player->odr_manager->GetRoadById(roadId);
+        idx_t              lane_section_idx = road != nullptr ? road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+
+        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..9e447c7 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -474,7 +474,11 @@ extern "C"
             roadmanager::Position* pos = &position[static_cast<unsigned int>(handle)];
             if (pos)
             {
-                int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset));
+                // look up the lane section by s, the requested lane should not be resolved via links from the lane of the current position
+                roadmanager::Road* lane_road        = odrManager->GetRoadById(roadId);
+                idx_t              lane_section_idx = lane_road != nullptr ? lane_road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+
+                int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx));
                 if (retval >= 0 && align)
                 {
                     roadmanager::OpenDrive* odr = roadmanager::Position::GetOpenDrive();
-- 
2.43.0


From 59022fbcb95e9f2b9dc7c2f93d139f36ccd41243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 11/55] fix: stay on the same side of the road when a lane has
 no link to an oppositely drawn road

---
 .../Modules/RoadManager/RoadManager.cpp        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index fe7005b..574f3ab 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10212,6 +10212,10 @@ Position::ReturnCode Position::MoveToConnectingRoad(RoadLink* road_link, Contact
         return ReturnCode::ERROR_GENERIC;
     }
 
+    // connecting roads with opposite reference line directions
+    bool reversed = (road_link->GetType() == LinkType::PREDECESSOR && contact_point_type == ContactPointType::CONTACT_POINT_START) ||
+                    (road_link->GetType() == LinkType::SUCCESSOR && contact_point_type == ContactPointType::CONTACT_POINT_END);
+
     if (new_lane_id == 0)
     {
         LOG_WARN("No connection from rid {} lid {} -> rid {} eltype {} - trying move to closest lane",
@@ -10221,13 +10225,20 @@ Position::ReturnCode Position::MoveToConnectingRoad(RoadLink* road_link, Contact
                  road_link->GetElementType());
 
         // Find closest lane on new road - by convert to track pos and then set lane offset = 0
+        double new_t = GetT();
+        if (reversed)
+        {
+            h_relative_ = GetAngleSum(h_relative_, M_PI);
+            new_t       = -new_t;
+        }
+
         if (contact_point_type == CONTACT_POINT_START)
         {
-            ret_val = SetTrackPos(next_road->GetId(), 0, GetT(), false);
+            ret_val = SetTrackPos(next_road->GetId(), 0, new_t, false);
         }
         else if (contact_point_type == CONTACT_POINT_END)
         {
-            ret_val = SetTrackPos(next_road->GetId(), next_road->GetLength(), GetT(), false);
+            ret_val = SetTrackPos(next_road->GetId(), next_road->GetLength(), new_t, false);
         }
         else
         {
@@ -10253,8 +10264,7 @@ Position::ReturnCode Position::MoveToConnectingRoad(RoadLink* road_link, Contact
     }
 
     double new_offset = offset_;
-    if ((road_link->GetType() == LinkType::PREDECESSOR && contact_point_type == ContactPointType::CONTACT_POINT_START) ||
-        (road_link->GetType() == LinkType::SUCCESSOR && contact_point_type == ContactPointType::CONTACT_POINT_END))
+    if (reversed)
     {
         h_relative_ = GetAngleSum(h_relative_, M_PI);
         new_offset  = -offset_;
-- 
2.43.0


From 0464a6400bcd3c3f0e7e0b73c5b8813728412358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 12/55] fix: follow lane links through all lane sections when a
 move passes the end of the road

---
 .../Modules/RoadManager/RoadManager.cpp       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 574f3ab..d3f7ebd 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10407,13 +10407,25 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     double signed_dLaneOffset = dLaneOffset;
     bool   done               = false;
 
+    // follow lane links on current road from current lane section to the one at s
+    auto followLanes = [&](double s)
+    {
+        LaneInfo li;
+        if (road->GetLaneInfoByS(s, lane_section_idx_, lane_id_, li, snapToLaneTypes_) >= 0)
+        {
+            lane_section_idx_ = li.lane_section_idx_;
+            lane_id_          = li.lane_id_;
+            lane_idx_         = road->GetLaneSectionByIdx(lane_section_idx_)->GetLaneIdxById(lane_id_);
+        }
+    };
+
     // move from road to road until ds-value is within road length or maximum of connections has been crossed
     for (int i = 0; done == false && i < max_links; i++)
     {
         if (s_ + ds_road > GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength())
         {
-            // beyond end of road, ensure last lane section
-            lane_section_idx_ = road->GetNumberOfLaneSections() - 1;
+            // beyond end of road, follow lane links up to the last lane section
+            followLanes(road->GetLength());
 
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road - GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
@@ -10424,8 +10436,8 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
         }
         else if (s_ + ds_road < 0)
         {
-            // beyond start of road, ensure first lane section
-            lane_section_idx_ = 0;
+            // beyond start of road, follow lane links down to the first lane section
+            followLanes(0.0);
 
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road;
-- 
2.43.0


From 0a588bdef41b285b1d884313a7dd3bb9fc123acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:38 +0000
Subject: [PATCH 13/55] fix: sign of the distance to another road follows the
 heading of the start position

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index d3f7ebd..643bf67 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6366,12 +6366,6 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     dist = direction_ * tmpDist;
 
-    // Also take intial heading of the start position into consideration for the sign of the distance
-    if (startPos_->GetHRelativeDrivingDirection() > M_PI_2 && startPos_->GetHRelativeDrivingDirection() < 3 * M_PI_2)
-    {
-        dist *= -1;
-    }
-
     return found ? 0 : -1;
 }
 
-- 
2.43.0


From 276198e0b16b4d5ba45fd327e65271dea122e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:09 +0000
Subject: [PATCH 14/55] fix: road path search returns the shortest path

---
 .../Modules/RoadManager/RoadManager.cpp       | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 643bf67..f923eb5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6072,8 +6072,11 @@ bool RoadPath::CheckRoad(Road* checkRoad, RoadPath::PathNode* srcNode, Road* fro
             // Consider it, i.e. calc distance and potentially store it (if less than old)
             if (srcNode->dist + checkRoad->GetLength() < unvisited_[i]->dist)
             {
-                unvisited_[i]->dist = srcNode->dist + checkRoad->GetLength();
+                unvisited_[i]->dist       = srcNode->dist + checkRoad->GetLength();
+                unvisited_[i]->fromLaneId = nextLaneId;
+                unvisited_[i]->previous   = srcNode;
             }
+            break;
         }
     }
 
@@ -6105,6 +6108,8 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
     Road*      nextRoad;
     bool       found   = false;
     double     tmpDist = 0;
+    PathNode*  foundNode = nullptr;       // last node of shortest path so far
+    double     foundDist = LARGE_NUMBER;  // length of shortest path so far
     size_t     i;
 
     // This method will find and measure the length of the shortest path
@@ -6225,10 +6230,8 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
         return -1;
     }
 
-    for (i = 0; i < 100 && !found && unvisited_.size() > 0 && tmpDist < maxDist; i++)
+    for (i = 0; i < 100 && unvisited_.size() > 0 && tmpDist < maxDist; i++)
     {
-        found = false;
-
         // Find unvisited PathNode with shortest distance
         double minDist  = LARGE_NUMBER;
         idx_t  minIndex = 0;
@@ -6241,11 +6244,27 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             }
         }
 
+        if (found && minDist > foundDist - SMALL_NUMBER)
+        {
+            break;  // remaining nodes can't contribute to a shorter path
+        }
+
         link        = unvisited_[minIndex]->link;
         tmpDist     = unvisited_[minIndex]->dist;
         pivotRoad   = unvisited_[minIndex]->fromRoad;
         pivotLaneId = unvisited_[minIndex]->fromLaneId;
 
+        // Register path to target, if shorter than any previously found
+        auto registerPath = [&](double pathDist)
+        {
+            if (!found || pathDist < foundDist)
+            {
+                found     = true;
+                foundDist = pathDist;
+                foundNode = unvisited_[minIndex];
+            }
+        };
+
         // - Inspect all unvisited neighbor nodes (links), measure edge (road) distance to that link
         // - Note the total distance
         // - If not already in invisited list, put it there.
@@ -6260,14 +6279,12 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                 // Special case: On same road, distance is equal to delta s, direction considered
                 if (link->GetContactPointType() == ContactPointType::CONTACT_POINT_START)
                 {
-                    tmpDist += targetPos_->GetS();
+                    registerPath(tmpDist + targetPos_->GetS());
                 }
                 else
                 {
-                    tmpDist += nextRoad->GetLength() - targetPos_->GetS();
+                    registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS());
                 }
-
-                found = true;
             }
             else
             {
@@ -6298,11 +6315,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                     {
                         if (contact_point == ContactPointType::CONTACT_POINT_START)
                         {
-                            tmpDist += targetPos_->GetS();
+                            registerPath(tmpDist + targetPos_->GetS());
                         }
                         else if (contact_point == ContactPointType::CONTACT_POINT_END)
                         {
-                            tmpDist += nextRoad->GetLength() - targetPos_->GetS();
+                            registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS());
                         }
                         else
                         {
@@ -6315,7 +6332,6 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                         LOG_ERROR("Failed to check link in junction");
                         return -1;
                     }
-                    found = true;
                 }
                 else
                 {
@@ -6331,6 +6347,12 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     if (found)
     {
+        tmpDist = foundDist;
+
+        // make sure the last visited node is the one leading to the target
+        visited_.erase(std::find(visited_.begin(), visited_.end(), foundNode));
+        visited_.push_back(foundNode);
+
         // Find out whether the path goes forward or backwards from starting position
         if (visited_.size() > 0)
         {
-- 
2.43.0


From 0a372460d6cf21b2e559233ba014aa68ca295e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:02 +0000
Subject: [PATCH 15/55] fix: lane difference to a position on another road
 follows the lane links of the path

---
 .../Modules/RoadManager/RoadManager.cpp       | 47 +++++++------------
 .../Modules/RoadManager/RoadManager.hpp       |  4 +-
 2 files changed, 21 insertions(+), 30 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index f923eb5..2bcdb68 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6168,11 +6168,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
@@ -6255,13 +6255,14 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
         pivotLaneId = unvisited_[minIndex]->fromLaneId;
 
         // Register path to target, if shorter than any previously found
-        auto registerPath = [&](double pathDist)
+        auto registerPath = [&](double pathDist, ContactPointType contactPoint)
         {
             if (!found || pathDist < foundDist)
             {
                 found     = true;
                 foundDist = pathDist;
                 foundNode = unvisited_[minIndex];
+                targetContactPoint_ = contactPoint;
             }
         };
 
@@ -6279,11 +6280,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                 // Special case: On same road, distance is equal to delta s, direction considered
                 if (link->GetContactPointType() == ContactPointType::CONTACT_POINT_START)
                 {
-                    registerPath(tmpDist + targetPos_->GetS());
+                    registerPath(tmpDist + targetPos_->GetS(), ContactPointType::CONTACT_POINT_START);
                 }
                 else
                 {
-                    registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS());
+                    registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS(), ContactPointType::CONTACT_POINT_END);
                 }
             }
             else
@@ -6315,11 +6316,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                     {
                         if (contact_point == ContactPointType::CONTACT_POINT_START)
                         {
-                            registerPath(tmpDist + targetPos_->GetS());
+                            registerPath(tmpDist + targetPos_->GetS(), ContactPointType::CONTACT_POINT_START);
                         }
                         else if (contact_point == ContactPointType::CONTACT_POINT_END)
                         {
-                            registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS());
+                            registerPath(tmpDist + nextRoad->GetLength() - targetPos_->GetS(), ContactPointType::CONTACT_POINT_END);
                         }
                         else
                         {
@@ -11766,31 +11767,19 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
 
         if (last_node != nullptr)
         {
-            // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // Find out corresponding lane ID of connected route up to pos B, starting with the connecting lane on road of pos B
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            if (adjustedLaneIdA != 0)
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
-
-                // Check relative heading
-                pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
+                LaneInfo li;
+                idx_t    entry_idx = path->targetContactPoint_ == ContactPointType::CONTACT_POINT_START ? 0 : road_B->GetNumberOfLaneSections() - 1;
+                road_B->GetLaneInfoByS(pos_b->GetS(), entry_idx, adjustedLaneIdA, li, Lane::LaneType::LANE_TYPE_ANY);
+                adjustedLaneIdA = li.lane_id_;
             }
-            else
-            {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
 
-                // Check relative heading
-                pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
-            }
+            // Check relative heading
+            pos_a_forward = last_node->contactPoint == ContactPointType::CONTACT_POINT_START;
         }
         // If the relative direction of the two positions is the same, we are driving in the same direction unless the detected path is reversed, then
         // we have to invert the dDirection
diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
index 55cce73..2f20c0e 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
@@ -5223,12 +5223,14 @@ namespace roadmanager
         const Position         *targetPos_;
         int                     direction_;  // direction of path from starting pos. 0==not set, 1==forward, -1==backward
         PathNode               *firstNode_;
+        ContactPointType        targetContactPoint_;  // end of the target road at which the path enters it
 
         RoadPath(const Position *startPos, const Position *targetPos)
             : startPos_(startPos),
               targetPos_(targetPos),
               direction_(0),
-              firstNode_(nullptr){};
+              firstNode_(nullptr),
+              targetContactPoint_(ContactPointType::CONTACT_POINT_UNDEFINED){};
         ~RoadPath();
 
         /**
-- 
2.43.0


From da7a54e78c58c02d87457b702d806d1788b5a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:58 +0000
Subject: [PATCH 16/55] fix: reconstruct all frame times of a recording with
 changing timestep

---
 .../Applications/replayer/Replay.cpp          | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..b3fff12 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -891,9 +891,12 @@ void Replay::FillInTimestamps()
         size_t i = 0;
         for (size_t j = 0; j < dts_.values.size() - 1;)
         {
-            double next_timestamp = timestamps_[i + 1];
+            double next_timestamp = timestamps_[std::min(i + 1, timestamps_.size() - 1)];
             double next_dt        = dts_.values[j + 1].second;
 
+            // A changed timestep applies already to the step ending at the timestamp of the change
+            bool dt_change_next = NEAR_NUMBERS(next_timestamp, dts_.values[j + 1].first);
+
             // We have reached the time where the next dt should be used
             // Increment j so we get next dt in next iteration
             if (NEAR_NUMBERS(curr_time, dts_.values[j + 1].first - next_dt))
@@ -930,24 +933,37 @@ void Replay::FillInTimestamps()
             }
 
             double current_dt = dts_.values[j].second;
+            double last_dt    = dt_change_next ? next_dt : current_dt;
+            if (curr_time > next_timestamp - SMALL_NUMBER)
+            {
+                // All timestamps have been visited
+                j++;
+                continue;
+            }
+
             // The gap to the next timestamp is more than 1 sample away, we should fill it
-            if (curr_time + next_dt < next_timestamp - SMALL_NUMBER && curr_time + current_dt < next_timestamp - SMALL_NUMBER)
+            size_t n_filled = filled.size();
+            if (curr_time + last_dt < next_timestamp - SMALL_NUMBER)
             {
                 // We have a large gap
-                double end_time = next_timestamp - next_dt;
+                double end_time = next_timestamp - last_dt;
                 FillEmptyTimestamps(curr_time, end_time, current_dt, filled);
             }
+
             // We are one sample away, just add it
-            else
+            if (filled.size() == n_filled)
             {
                 filled.emplace_back(next_timestamp);
             }
 
-            i++;
             curr_time = filled.back();
+            while (i + 1 < timestamps_.size() && timestamps_[i + 1] < curr_time + SMALL_NUMBER)
+            {
+                i++;
+            }
 
             // We have reached the last dt_ value, but the current time is not at the end, so we need to fill with current dt until the end
-            if (j == dts_.values.size() - 1 && curr_time + current_dt < timestamps_.back() - SMALL_NUMBER)
+            if (j == dts_.values.size() - 1 && curr_time < timestamps_.back() - SMALL_NUMBER)
             {
                 FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
             }
-- 
2.43.0


From 790187df97e88644004d93e904309df62a61ca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:53 +0000
Subject: [PATCH 17/55] fix: ignore an incomplete last packet of a recording

---
 .../Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
index e4e2444..b24476c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
@@ -538,6 +538,12 @@ bool Dat::DatReader::ReadFile(Dat::PacketHeader& header)
         return false;
     }
 
+    if (static_cast<std::streamoff>(header.data_size) > file_size_ - file_.tellg())
+    {
+        LOG_WARN("{} is truncated, ignoring incomplete last packet", file_name_);
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 990de19a6f1691ac1cc9d18461ae75d0fd034ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:54 +0000
Subject: [PATCH 18/55] fix: ignore objects whose initial state is missing in
 an interrupted recording

---
 .../Applications/replayer/Replay.cpp          | 19 +++++++++++++++++++
 .../Applications/replayer/Replay.hpp          |  1 +
 2 files changed, 20 insertions(+)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index b3fff12..9046c57 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -57,6 +57,7 @@ Replay::Replay(std::string filename, bool quiet) : time_(0.0), quiet_(quiet), in
     if (!eos_received_)
     {
         stopTime_ = timestamps_.back();
+        RemoveIncompleteObjects();
     }
 
     startTime_ = timestamps_[0];
@@ -171,6 +172,7 @@ Replay::Replay(const std::string directory, const std::string scenario, std::str
     if (!eos_received_)
     {
         stopTime_ = timestamps_.back();
+        RemoveIncompleteObjects();
     }
 
     startTime_ = timestamps_[0];
@@ -786,6 +788,23 @@ int Replay::ParsePackets()
     return 0;
 }
 
+void Replay::RemoveIncompleteObjects()
+{
+    // Recording of a new object might have been interrupted before all of its initial state was written
+    for (auto it = objects_timeline_.begin(); it != objects_timeline_.end();)
+    {
+        if (it->second.pos_s_.values.empty())  // last one of the mandatory properties
+        {
+            LOG_WARN("Ignoring incompletely recorded object {}", it->first);
+            it = objects_timeline_.erase(it);
+        }
+        else
+        {
+            ++it;
+        }
+    }
+}
+
 void Replay::FlattenSlices(bool add_ghost_restart)
 {
     generic_packets_.emplace_back();
diff --git a/EnvironmentSimulator/Applications/replayer/Replay.hpp b/EnvironmentSimulator/Applications/replayer/Replay.hpp
index 0ff4bc9..9891166 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.hpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.hpp
@@ -420,6 +420,7 @@ namespace scenarioengine
         Dat::DatHeader ParseDatHeader(const std::string& filename);
         bool           ExtractPacketsAsSlices(bool dt_in_slice = true, size_t scenario_idx = 0);
         void           ExtractGhostRestarts();
+        void           RemoveIncompleteObjects();
         void           FlattenSlices(bool add_ghost_restart = true);
         void           RemoveDuplicateTimestampsInSlices(const Timeline<double>& dts);
         void           MergeAndCleanTimestamps(const std::vector<std::vector<double>>& scenarios_timestamps);
-- 
2.43.0


From e78e3c45c0b1deeedde4bc207e62a74dcf491181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:43 +0000
Subject: [PATCH 19/55] fix: boolean expressions give the declared boolean its
 value

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..fbd177c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -407,6 +407,24 @@ static void ReplaceStringInPlace(std::string& subject, const std::string& search
     }
 }
 
+static void ReplaceWordInPlace(std::string& subject, const std::string& search, const std::string& replace)
+{
+    auto is_word_char = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
+
+    size_t pos = 0;
+    while ((pos = subject.find(search, pos)) != std::string::npos)
+    {
+        size_t end = pos + search.length();
+        if ((pos > 0 && is_word_char(subject[pos - 1])) || (end < subject.length() && is_word_char(subject[end])))
+        {
+            pos = end;  // part of a longer word
+            continue;
+        }
+        subject.replace(pos, search.length(), replace);
+        pos += replace.length();
+    }
+}
+
 // std::string ReadAttributeFrom
 
 std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute_name, bool required)
@@ -443,8 +461,11 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                     ReplaceStringInPlace(expr, "not(", "!(");
                     ReplaceStringInPlace(expr, "and ", "&& ");
                     ReplaceStringInPlace(expr, "or ", "|| ");
-                    ReplaceStringInPlace(expr, "true ", "1 ");
-                    ReplaceStringInPlace(expr, "false ", "0 ");
+                    if (expr != "true" && expr != "false")
+                    {
+                        ReplaceWordInPlace(expr, "true", "1");
+                        ReplaceWordInPlace(expr, "false", "0");
+                    }
 
                     ExprReturnStruct rs = eval_expr(expr.c_str());
                     if (rs.type == EXPR_RETURN_UNDEFINED && isnan(rs._double))
@@ -550,7 +571,11 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
             }
 
             param.type        = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
-            param.value._bool = param.value._string == "true" ? true : false;
+            param.value._bool = param.value._string == "true" || strtod(param.value._string) != 0.0;  // expressions give a number
+            if (!param.value._string.empty())
+            {
+                param.value._string = param.value._bool ? "true" : "false";
+            }
         }
         else if (type_str == "string")
         {
-- 
2.43.0


From 4a2a418078544833982ab17d05725406788a619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:43 +0000
Subject: [PATCH 20/55] fix: local parameter declarations do not leak out of
 maneuvers, environments and catalog entries

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp        |  4 +++-
 .../ScenarioEngine/SourceFiles/ScenarioReader.cpp    | 12 +++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index fbd177c..94762b1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,8 +19,10 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
+
+    // any catalog parameter assignments are now consumed, should not affect declarations of nested elements
+    catalog_param_assignments.clear();
 }
 
 void Parameters::parseGlobalParameterDeclarations(pugi::xml_node osc_root)
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..7a692c5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -1527,6 +1527,7 @@ Entry *ScenarioReader::ResolveCatalogReference(pugi::xml_node node)
     pugi::xml_node parameterAssignmentsNode = node.child("ParameterAssignments");
 
     // Read any parameter assignments
+    std::vector<OSCParameterDeclarations::ParameterStruct> assignments;
     for (pugi::xml_node param_n = parameterAssignmentsNode.child("ParameterAssignment"); param_n;
          param_n                = param_n.next_sibling("ParameterAssignment"))
     {
@@ -1540,8 +1541,9 @@ Entry *ScenarioReader::ResolveCatalogReference(pugi::xml_node node)
             param.name = param_n.attribute("parameterRef").value();
         }
         param.value._string = parameters.ReadAttribute(param_n, "value");
-        parameters.catalog_param_assignments.push_back(param);
+        assignments.push_back(param);
     }
+    parameters.catalog_param_assignments = assignments;
 
     catalog_name = parameters.ReadAttribute(node, "catalogName");
     entry_name   = parameters.ReadAttribute(node, "entryName");
@@ -5220,6 +5222,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 {
     maneuver->SetName(parameters.ReadAttribute(maneuverNode, "name"));
 
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node maneuverChild = maneuverNode.first_child(); maneuverChild; maneuverChild = maneuverChild.next_sibling())
     {
         std::string maneuverChildName(maneuverChild.name());
@@ -5365,6 +5369,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
             maneuver->event_.push_back(event);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
@@ -5564,6 +5570,8 @@ static void SelectCloudState(scenarioengine::CloudState &state, const std::strin
 
 void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvironment &env)
 {
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node envChild : xml_node.children())
     {
         std::string envChildName(envChild.name());
@@ -5761,4 +5769,6 @@ void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvi
             LOG_WARN("Not valid environment attribute name:{}", envChildName);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
-- 
2.43.0


From e819cf846e5f3e5ed8749cd75c46e7ae49d5360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:44 +0000
Subject: [PATCH 21/55] fix: refuse parameter distribution range with a step
 width that never reaches the upper limit

---
 .../ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
index ee87ee5..2f842e9 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
@@ -221,6 +221,11 @@ int OSCParameterDistribution::Load(std::string filename)
                         LOG_ERROR("Distribution range invalid range {:.2f}..{:.2f}", lower_limit, upper_limit);
                         return -1;
                     }
+                    if (step_width < SMALL_NUMBER)
+                    {
+                        LOG_ERROR("Distribution range invalid step width {:.2f}", step_width);
+                        return -1;
+                    }
                     for (double v = lower_limit; v < upper_limit + SMALL_NUMBER; v += step_width)
                     {
                         entry.value                                   = std::to_string(v);
-- 
2.43.0


From 72a5efcb0d3fb3e68a3b225934f0c1ce21bb5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:34 +0000
Subject: [PATCH 22/55] fix: library calls with object ids, handles, indices or
 roads that do not exist are refused instead of crashing

---
 .../Libraries/esminiLib/esminiLib.cpp         | 35 ++++++++++-----
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 45 ++++++++++---------
 .../Modules/PlayerBase/PlayerServer.cpp       | 27 +++++++++--
 3 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 1440c2b..4d10203 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -794,7 +794,7 @@ extern "C"
     {
         static std::string returnString;
 
-        if (player == nullptr)
+        if (player == nullptr || index < 0 || index >= SE_GetNumberOfParameters())
         {
             return 0;
         }
@@ -818,7 +818,7 @@ extern "C"
     {
         static std::string returnString;
 
-        if (player == nullptr)
+        if (player == nullptr || index < 0 || index >= SE_GetNumberOfVariables())
         {
             return 0;
         }
@@ -1249,8 +1249,12 @@ extern "C"
         }
 
         // look up the lane section by s, the reported lane should not be resolved via links from the lane of the current position
-        roadmanager::Road *road             = player->odr_manager->GetRoadById(roadId);
-        idx_t              lane_section_idx = road != nullptr ? road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+        roadmanager::Road *road = player->odr_manager->GetRoadById(roadId);
+        if (road == nullptr)
+        {
+            return -1;
+        }
+        idx_t lane_section_idx = road->GetLaneSectionIdxByS(s);
 
         obj->pos_.SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
@@ -1479,7 +1483,7 @@ extern "C"
 
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
-        if (obj == nullptr)
+        if (obj == nullptr || static_cast<size_t>(light_type) >= static_cast<size_t>(Object::VehicleLightType::VEHICLE_LIGHT_SIZE))
         {
             return -1;
         }
@@ -2159,9 +2163,9 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (getObjectById(object_id, obj) == 0 && obj->GetType() == Object::Type::VEHICLE)
         {
             return static_cast<int>(static_cast<Vehicle *>(obj)->GetWheelData().size());
         }
@@ -2171,9 +2175,10 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (getObjectById(object_id, obj) == 0 && obj->GetType() == Object::Type::VEHICLE && wheel_index >= 0 &&
+            static_cast<size_t>(wheel_index) < static_cast<Vehicle *>(obj)->GetWheelData().size())
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
@@ -2450,6 +2455,11 @@ extern "C"
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            return;
+        }
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
@@ -2530,7 +2540,10 @@ extern "C"
             if (road != nullptr)
             {
                 roadmanager::Signal *s = road->GetSignal(index);
-                return static_cast<unsigned int>(s->validity_.size());
+                if (s != nullptr)
+                {
+                    return static_cast<unsigned int>(s->validity_.size());
+                }
             }
         }
 
@@ -2545,7 +2558,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal *s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 9e447c7..67be392 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()) || odrManager->GetRoadById(roadId) == nullptr)
         {
             return -1;
         }
@@ -475,8 +475,7 @@ extern "C"
             if (pos)
             {
                 // look up the lane section by s, the requested lane should not be resolved via links from the lane of the current position
-                roadmanager::Road* lane_road        = odrManager->GetRoadById(roadId);
-                idx_t              lane_section_idx = lane_road != nullptr ? lane_road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+                idx_t lane_section_idx = odrManager->GetRoadById(roadId)->GetLaneSectionIdxByS(s);
 
                 int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx));
                 if (retval >= 0 && align)
@@ -510,7 +509,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()) || odrManager->GetRoadById(roadId) == nullptr)
         {
             return -1;
         }
@@ -551,7 +550,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -576,7 +575,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -594,7 +593,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -612,7 +611,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -652,7 +651,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -681,7 +680,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -708,7 +707,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()) || odrManager->GetRoadById(roadId) == nullptr)
         {
             return -1;
         }
@@ -733,7 +732,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -751,7 +750,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -770,7 +769,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -790,7 +789,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -815,7 +814,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -825,7 +824,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -835,7 +834,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -923,7 +922,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleA >= static_cast<int>(position.size()) || handleB < 0 ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -1014,7 +1014,10 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(index);
-                return static_cast<int>(s->validity_.size());
+                if (s != nullptr)
+                {
+                    return static_cast<int>(s->validity_.size());
+                }
             }
         }
 
@@ -1029,7 +1032,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..8386200 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -170,9 +170,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectSpeedAction(SpeedActionStruct &action)
     {
+        Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (obj == nullptr)
+        {
+            LOG_ERROR("Injected action ignored, invalid object id {}", action.id);
+            return;
+        }
+
         LongSpeedAction *a = new LongSpeedAction(nullptr);
         a->SetName("SpeedAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = obj;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -188,9 +195,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneChangeAction(LaneChangeActionStruct &action)
     {
+        Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (obj == nullptr)
+        {
+            LOG_ERROR("Injected action ignored, invalid object id {}", action.id);
+            return;
+        }
+
         LatLaneChangeAction *a = new LatLaneChangeAction(nullptr);
         a->SetName("LaneChangeAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = obj;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         SetTransitionDimension(a->transition_, action.transition_dim);
@@ -216,9 +230,16 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneOffsetAction(LaneOffsetActionStruct &action)
     {
+        Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        if (obj == nullptr)
+        {
+            LOG_ERROR("Injected action ignored, invalid object id {}", action.id);
+            return;
+        }
+
         LatLaneOffsetAction *a = new LatLaneOffsetAction(nullptr);
         a->SetName("LaneOffsetAction_" + std::to_string(counter_));
-        a->object_ = player_->scenarioEngine->entities_.GetObjectById(action.id);
+        a->object_ = obj;
 
         SetTransitionShape(a->transition_, action.transition_shape);
         a->max_num_executions_ = 1;
-- 
2.43.0


From 8d115b9440cf9137625fbf6148b0533db4b81e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 23/55] fix: initialise previous vertical position and velocity
 of new objects

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 4f8a81b..a45151f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -52,8 +52,10 @@ Object::Object(Type type)
 
     state_old.pos_x  = 0;
     state_old.pos_y  = 0;
+    state_old.pos_z  = 0;
     state_old.vel_x  = 0;
     state_old.vel_y  = 0;
+    state_old.vel_z  = 0;
     state_old.h      = 0;
     state_old.h_rate = 0;
 
-- 
2.43.0


From 0403bf55f51a8dd8463d7f2d74cd4b24ae5903b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 24/55] fix: collision detection enabled by option applies to
 that run only

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 9 ++++++++-
 EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..910d170 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -81,6 +81,12 @@ ScenarioPlayer::ScenarioPlayer(int argc, char* argv[])
 
 ScenarioPlayer::~ScenarioPlayer()
 {
+    if (collision_detection_by_option_)
+    {
+        // enabled for this run only
+        SE_Env::Inst().SetCollisionDetection(false);
+    }
+
     if (launch_server)
     {
         StopServer();
@@ -1813,9 +1819,10 @@ int ScenarioPlayer::Init()
         LOG_INFO("Generated seed {}", SE_Env::Inst().GetRand().GetSeed());
     }
 
-    if (opt.GetOptionSet("collision"))
+    if (opt.GetOptionSet("collision") && !SE_Env::Inst().GetCollisionDetection())
     {
         SE_Env::Inst().SetCollisionDetection(true);
+        collision_detection_by_option_ = true;
     }
 
     if (opt.GetOptionSet("plot"))
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
index 3b0f5bd..58a4f92 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
@@ -293,6 +293,7 @@ namespace scenarioengine
         bool         quit_request;
         bool         threads;
         bool         launch_server;
+        bool         collision_detection_by_option_ = false;  // whether collision detection was enabled by option, i.e. for this run only
         bool         disable_controllers_;
         double       fixed_timestep_;
         int          frame_counter_;
-- 
2.43.0


From a7de5e5db45d370baa02b944e1fd4651536ef1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 25/55] fix: angular acceleration follows the angular rate,
 also when reported or above pi rad/s

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..300b1da 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -691,7 +691,7 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 if (!obj->dirty_.Check(Object::DirtyBit::ANGULAR_ACC))
                 {
                     // If not already reported, calculate angular acceleration
-                    obj->SetAngularAcc(GetAngleDifference(heading_rate_new, obj->state_old.h_rate) / dt, 0.0, 0.0);
+                    obj->SetAngularAcc((obj->pos_.GetHRate() - obj->state_old.h_rate) / dt, 0.0, 0.0);
                 }
 
                 if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From 7d76e5b794f770b427c09e8895f7d5097298ab63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:12 +0000
Subject: [PATCH 26/55] fix: reported lateral lane position uses the given lane
 and keeps longitudinal motion; lane lock and snap settings accept all object
 ids

---
 .../Libraries/esminiLib/esminiLib.cpp         | 25 ++++---------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4d10203..42abb41 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1291,15 +1291,14 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
-        obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
+        obj->dirty_.SetBits(Object::DirtyBit::LATERAL);
 
         return 0;
     }
@@ -1385,15 +1384,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1406,14 +1398,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 3d15e9e06820cb2ae394e408c255851eed8b8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 27/55] fix: ego state server updates the ego under the
 engine's lock, and can be stopped before it runs; log from several threads

---
 .../Modules/CommonMini/CommonMini.hpp         | 21 +++++++-
 .../Modules/CommonMini/logger.hpp             |  5 ++
 .../ScenarioEngine/SourceFiles/Server.cpp     | 50 ++++++++-----------
 3 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
index 3ea1bee..59fbb3e 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.hpp
@@ -888,10 +888,29 @@ private:
 #if (defined WINVER && WINVER == _WIN32_WINNT_WIN7 || __MINGW32__)
     void* mutex_;
 #else
-    std::mutex  mutex_;
+    std::recursive_mutex mutex_;
 #endif
 };
 
+// Keep a mutex locked during the lifetime of the object
+class SE_ScopedLock
+{
+public:
+    explicit SE_ScopedLock(SE_Mutex& mutex) : mutex_(mutex)
+    {
+        mutex_.Lock();
+    }
+    ~SE_ScopedLock()
+    {
+        mutex_.Unlock();
+    }
+    SE_ScopedLock(const SE_ScopedLock&)            = delete;
+    SE_ScopedLock& operator=(const SE_ScopedLock&) = delete;
+
+private:
+    SE_Mutex& mutex_;
+};
+
 // Semaphore implementation based on this "thread":
 // https://stackoverflow.com/questions/4792449/c0x-has-no-semaphores-how-to-synchronize-threads/4793662#4793662
 // But adapted for use cases where a thread should wait until a series, not necessarily overlapping, tasks from
diff --git a/EnvironmentSimulator/Modules/CommonMini/logger.hpp b/EnvironmentSimulator/Modules/CommonMini/logger.hpp
index e627c9c..4073d79 100644
--- a/EnvironmentSimulator/Modules/CommonMini/logger.hpp
+++ b/EnvironmentSimulator/Modules/CommonMini/logger.hpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <deque>
 #include <cstdio>
+#include <mutex>
 
 // Converts enum to its underlying integer type and formats it
 template <typename T>
@@ -142,6 +143,9 @@ namespace esmini::common
         void
         Log(LogLevel msgLogLevel, const std::string& logStr, char const* function, char const* file, long line, const std::string& log, ARGS... args)
         {
+            // messages may come from several threads
+            std::lock_guard<std::recursive_mutex> lock(mutex_);
+
             if (logLevel_ > msgLogLevel)
             {
                 return;
@@ -186,6 +190,7 @@ namespace esmini::common
         std::vector<CallbackFuncPtr> callbacks_;
         std::deque<std::string>      buffer_;
         unsigned int                 buffer_capacity_ = 0;
+        std::recursive_mutex         mutex_;
 
     };  // class TxtLogger
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
index 790577d..de267b1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Server.cpp
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <atomic>
 
 #include "CommonMini.hpp"
 #include "Server.hpp"
@@ -30,10 +31,9 @@ enum
     SERV_STOPPED
 };
 
-static int             state = SERV_NOT_STARTED;
-static SE_Thread       thread;
-static SE_Mutex        mutex;
-static ScenarioEngine *scenario_engine = nullptr;
+static std::atomic<int> state{SERV_NOT_STARTED};
+static SE_Thread        thread;
+static ScenarioEngine  *scenario_engine = nullptr;
 
 namespace scenarioengine
 {
@@ -44,16 +44,11 @@ namespace scenarioengine
         (void)iPortIn;
         EgoStateBuffer_t buf;
 
-        state                = SERV_NOT_STARTED;
         UDPServer *udpServer = new UDPServer(ESMINI_DEFAULT_INPORT);
 
-        LOG_INFO("Server listening on port {}", ESMINI_DEFAULT_INPORT);
-
-        state             = SERV_RUNNING;
-        double  x_old     = 0.0;
-        double  y_old     = 0.0;
-        double  wheel_rot = 0.0;
-        Object *ego       = scenario_engine->entities_.object_.size() > 0 ? scenario_engine->entities_.object_[0] : nullptr;
+        double x_old     = 0.0;
+        double y_old     = 0.0;
+        double wheel_rot = 0.0;
 
         while (state == SERV_RUNNING)
         {
@@ -83,14 +78,16 @@ namespace scenarioengine
                        180 * buf.wheel_angle / M_PI);
 
                 // Update Ego state
-                mutex.Lock();
-
-                ego->pos_.SetInertiaPos(buf.x, buf.y, buf.z, buf.h, buf.p, buf.r);
-                ego->SetSpeed(buf.speed);
-                ego->wheel_angle_ = buf.wheel_angle;
-                ego->wheel_rot_   = wheel_rot;
-
-                mutex.Unlock();
+                SE_ScopedLock lock(scenario_engine->mutex_);
+
+                Object *ego = scenario_engine->entities_.object_.size() > 0 ? scenario_engine->entities_.object_[0] : nullptr;
+                if (ego != nullptr)
+                {
+                    ego->pos_.SetInertiaPos(buf.x, buf.y, buf.z, buf.h, buf.p, buf.r);
+                    ego->SetSpeed(buf.speed);
+                    ego->wheel_angle_ = buf.wheel_angle;
+                    ego->wheel_rot_   = wheel_rot;
+                }
             }
         }
 
@@ -104,20 +101,17 @@ namespace scenarioengine
         // Fetch scenarioengine
         scenario_engine = scenarioEngine;
 
+        LOG_INFO("Server listening on port {}", ESMINI_DEFAULT_INPORT);
+
+        // set before the thread is started, so that a stop request is never overwritten by it
+        state = SERV_RUNNING;
         thread.Start(ServerThread, NULL);
     }
 
     void StopServer()
     {
         // Flag time to stop
-        if (state == SERV_RUNNING)
-        {
-            state = SERV_STOP;
-        }
-        else
-        {
-            state = SERV_STOPPED;
-        }
+        state = SERV_STOP;
 
         // Wait/block until UDP server closed gracefully
         thread.Wait();
-- 
2.43.0


From 125fa80b58a79a5656afef49a7fcc4b5627a32b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:08 +0000
Subject: [PATCH 28/55] fix: player server messages are handled in between
 complete frames; injected actions replace ones not yet started and are
 removed when complete

---
 .../Modules/PlayerBase/PlayerServer.cpp       | 61 +++++++++++------
 .../Modules/PlayerBase/playerbase.cpp         | 65 ++++++++++---------
 .../Modules/PlayerBase/playerbase.hpp         |  5 +-
 .../SourceFiles/ScenarioEngine.cpp            |  4 +-
 4 files changed, 81 insertions(+), 54 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8386200..4c8fc47 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <atomic>
 
 #include "CommonMini.hpp"
 #include "PlayerServer.hpp"
@@ -32,8 +33,8 @@ enum
     SERV_STOPPED
 };
 
-static int       state = SERV_NOT_STARTED;
-static SE_Thread thread;
+static std::atomic<int> state{SERV_NOT_STARTED};
+static SE_Thread        thread;
 
 namespace scenarioengine
 {
@@ -51,8 +52,10 @@ namespace scenarioengine
         LOG_INFO("Adding action {}", action->GetName());
 
         // abort any action of same type and object
-        for (auto &a : action_)
+        for (size_t i = 0; i < action_.size();)
         {
+            OSCAction *a = action_[i];
+
             if (a->action_type_ == action->action_type_ &&
                 ((a->GetBaseType() != OSCAction::BaseType::PRIVATE) ||
                  (static_cast<OSCPrivateAction *>(a)->object_ == static_cast<OSCPrivateAction *>(action)->object_)))
@@ -61,8 +64,18 @@ namespace scenarioengine
                          a->GetName(),
                          a->Type2Str(),
                          a->GetBaseType() == OSCAction::BaseType::PRIVATE ? (" for " + static_cast<OSCPrivateAction *>(a)->object_->GetName()) : "");
+
+                if (a->GetCurrentState() == OSCAction::State::INIT)
+                {
+                    // not started yet, just forget about it
+                    DeleteAction(static_cast<unsigned int>(i));
+                    continue;
+                }
+
                 a->End();
             }
+
+            i++;
         }
 
         action_.push_back(action);
@@ -88,12 +101,17 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
@@ -170,6 +188,8 @@ namespace scenarioengine
 
     void PlayerServer::InjectSpeedAction(SpeedActionStruct &action)
     {
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
         Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
         if (obj == nullptr)
         {
@@ -195,6 +215,8 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneChangeAction(LaneChangeActionStruct &action)
     {
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
         Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
         if (obj == nullptr)
         {
@@ -230,6 +252,8 @@ namespace scenarioengine
 
     void PlayerServer::InjectLaneOffsetAction(LaneOffsetActionStruct &action)
     {
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
         Object *obj = player_->scenarioEngine->entities_.GetObjectById(action.id);
         if (obj == nullptr)
         {
@@ -254,6 +278,8 @@ namespace scenarioengine
 
     bool PlayerServer::InjectedActionOngoing(int action_type) const
     {
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
         if (action_type < 0)
         {
             return action_.size() > 0;
@@ -278,18 +304,15 @@ namespace scenarioengine
         static unsigned short int iPortIn = ESMINI_DEFAULT_ACTION_INPORT;  // Port for incoming packages
         (void)iPortIn;
         ActionStruct buf;
-        state                = SERV_NOT_STARTED;
         UDPServer *udpServer = new UDPServer(ESMINI_DEFAULT_ACTION_INPORT);
         if (udpServer->GetStatus() != 0)
         {
             LOG_ERROR("PlayerServer: Failed to open UDP socket");
+            delete udpServer;
+            state = SERV_STOPPED;
             return;
         }
 
-        LOG_INFO("PlayerServer listening on port {}", ESMINI_DEFAULT_ACTION_INPORT);
-
-        state = SERV_RUNNING;
-
         while (state == SERV_RUNNING)
         {
             int ret = udpServer->Receive(reinterpret_cast<char *>(&buf), sizeof(ActionStruct));
@@ -299,6 +322,9 @@ namespace scenarioengine
 #endif
             if (ret >= 0)
             {
+                // handle the message in between frames of the main thread
+                SE_ScopedLock lock(player->scenarioEngine->mutex_);
+
                 switch (buf.action_type)
                 {
                     case static_cast<int>(UDP_ACTION_TYPE::SPEED_ACTION):
@@ -317,11 +343,11 @@ namespace scenarioengine
                         player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_PAUSE);
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::STEP):
-                        player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_STEP);
+                        player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_PAUSE);
                         player->Frame(true);
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::STEP_DT):
-                        player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_STEP);
+                        player->SetState(ScenarioPlayer::PlayerState::PLAYER_STATE_PAUSE);
                         player->Frame(buf.message.stepDT.dt, true);
                         break;
                     case static_cast<int>(UDP_ACTION_TYPE::QUIT):
@@ -342,6 +368,10 @@ namespace scenarioengine
     {
         if (player_ != nullptr)
         {
+            LOG_INFO("PlayerServer listening on port {}", ESMINI_DEFAULT_ACTION_INPORT);
+
+            // set before the thread is started, so that a stop request is never overwritten by it
+            state = SERV_RUNNING;
             thread.Start(ServerThread, reinterpret_cast<void *>(player_));
         }
     }
@@ -349,14 +379,7 @@ namespace scenarioengine
     void PlayerServer::Stop()
     {
         // Flag time to stop
-        if (state == SERV_RUNNING)
-        {
-            state = SERV_STOP;
-        }
-        else
-        {
-            state = SERV_STOPPED;
-        }
+        state = SERV_STOP;
 
         // Wait/block until UDP server closed gracefully
         thread.Wait();
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 910d170..0c99806 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -191,7 +191,12 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
     int    retval        = 0;
     double ghost_solo_dt = (GetFixedTimestep() < 0.0) ? 0.05 : GetFixedTimestep();
 
-    if (!IsPaused() || server_mode)
+    // one complete frame at a time, also when frames are requested by the player server thread
+    SE_ScopedLock lock(scenarioEngine->mutex_);
+
+    const bool run = !IsPaused() || server_mode;
+
+    if (run)
     {
 #ifdef _USE_OSI
         if (osiReporter != nullptr)
@@ -200,8 +205,6 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         }
 #endif
 
-        scenarioEngine->mutex_.Lock();
-
         DirtyBits::SetReadFront();
         retval = ScenarioFrame(timestep_s, true);
 
@@ -222,7 +225,6 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
         {
             SetState(PlayerState::PLAYER_STATE_PAUSE);
         }
-        scenarioEngine->mutex_.Unlock();
     }
 
     if (!server_mode)
@@ -235,23 +237,18 @@ int ScenarioPlayer::Frame(double timestep_s, bool server_mode)
             LOG_INFO("Info: Simulation time > 1 hour. Put a stopTrigger for automatic ending");
             messageShown = true;
         }
+    }
 
-        if (player_server_)
-        {
-            player_server_->Step();
-        }
+    if (player_server_)
+    {
+        player_server_->Step();
     }
 
-    if (!IsPaused() || server_mode)
+    if (run && retval == 0)
     {
-        if (retval == 0)
-        {
-            scenarioEngine->mutex_.Lock();
-            ScenarioPostFrame();
-            scenarioEngine->SwapAndClearDirtyBits();
-            DirtyBits::SetReadBack();
-            scenarioEngine->mutex_.Unlock();
-        }
+        ScenarioPostFrame();
+        scenarioEngine->SwapAndClearDirtyBits();
+        DirtyBits::SetReadBack();
     }
 
     return retval;
@@ -314,7 +311,10 @@ int ScenarioPlayer::ScenarioFrame(double timestep_s, bool keyframe)
 
     mutex.Unlock();
 
-    quit_request |= scenarioEngine->GetQuitFlag();
+    if (scenarioEngine->GetQuitFlag())
+    {
+        quit_request = true;
+    }
 
     return retval;
 }
@@ -2054,20 +2054,6 @@ int ScenarioPlayer::Init()
         RecordToFile(filename, scenarioEngine->getOdrFilename(), scenarioEngine->getSceneGraphFilename(), std::string(esmini_git_rev()));
     }
 
-    if (launch_server)
-    {
-        // Launch UDP server to receive external Ego state
-        StartServer(scenarioEngine);
-    }
-
-    if (opt.GetOptionSet("player_server"))
-    {
-        LOG_INFO("Launch server to receive actions to inject");
-
-        // Launch UDP server to receive actions from external process
-        player_server_->Start();
-    }
-
     player_init_semaphore.Set();
 
     if (opt.IsInOriginalArgs("--window") || opt.IsInOriginalArgs("--borderless-window"))
@@ -2133,6 +2119,21 @@ int ScenarioPlayer::Init()
         SetState(PlayerState::PLAYER_STATE_PAUSE);
     }
 
+    // launch servers when the scenario is completely initialized
+    if (launch_server)
+    {
+        // Launch UDP server to receive external Ego state
+        StartServer(scenarioEngine);
+    }
+
+    if (opt.GetOptionSet("player_server"))
+    {
+        LOG_INFO("Launch server to receive actions to inject");
+
+        // Launch UDP server to receive actions from external process
+        player_server_->Start();
+    }
+
     player_init_semaphore.Release();
 
     return 0;
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
index 58a4f92..a9c55b2 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
@@ -10,6 +10,7 @@
  * https://sites.google.com/view/simulationscenarios
  */
 
+#include <atomic>
 #include <iostream>
 #include <string>
 #include <random>
@@ -290,7 +291,7 @@ namespace scenarioengine
         double       trail_dt;
         SE_Thread    thread;
         SE_Mutex     mutex;
-        bool         quit_request;
+        std::atomic<bool>        quit_request;
         bool         threads;
         bool         launch_server;
         bool         collision_detection_by_option_ = false;  // whether collision detection was enabled by option, i.e. for this run only
@@ -302,7 +303,7 @@ namespace scenarioengine
         int          argc_;
         char       **argv_;
         std::string  titleString;
-        PlayerState  state_;
+        std::atomic<PlayerState> state_;
         bool         vehicle_dynamics_enabled_;
         DampedSpring pitch_spring_template_;
         DampedSpring roll_spring_template_;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index 300b1da..fabb6fa 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -177,8 +177,10 @@ int ScenarioEngine::step(double deltaSimTime)
     // Step any externally injected actions
     if (injected_actions_ && injected_actions_->size() > 0)
     {
-        for (OSCAction* action : *injected_actions_)
+        for (size_t i = 0; i < injected_actions_->size(); i++)  // by index, since actions might be added by callbacks
         {
+            OSCAction* action = (*injected_actions_)[i];
+
             if (action->GetCurrentState() == StoryBoardElement::State::INIT || action->GetCurrentState() == StoryBoardElement::State::STANDBY)
             {
                 action->Start(simulationTime_);
-- 
2.43.0


From 912ea0a9a2c3e043646b8b09b464c11510f1e603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:13 +0000
Subject: [PATCH 29/55] fix: lane change turned the entity around when its road
 attachment changed at the end of an oppositely drawn road

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 87e262a..b72233d 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -986,10 +986,17 @@ void LatLaneChangeAction::Step(double simTime, double dt)
     }
 
     // Restore position to target lane and new offset
+    bool   other_road = object_->pos_.GetTrackId() != internal_pos_.GetTrackId();
+    double heading    = object_->pos_.GetH();
     object_->pos_.SetLanePos(internal_pos_.GetTrackId(),
                              internal_pos_.GetLaneId(),
                              internal_pos_.GetS(),
                              offset_agnostic * SIGN(internal_pos_.GetLaneId()));
+    if (other_road)
+    {
+        // object was attached to another, possibly opposite directed, road. Maintain the heading.
+        object_->pos_.SetHeading(heading);
+    }
 
     if (transition_.shape_ == DynamicsShape::STEP ||
         (transition_.dimension_ != DynamicsDimension::RATE && transition_.GetParamTargetVal() < SMALL_NUMBER))
-- 
2.43.0


From a4ae4a9a8b587de4e313a82c76efb2c83706c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:53 +0000
Subject: [PATCH 30/55] fix: looking ahead at the road centre missed it by the
 current lane offset

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 2bcdb68..297394e 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -12217,7 +12217,10 @@ Position::ReturnCode Position::GetProbeInfo(double lookahead_distance, RoadProbe
     if (lookAheadMode == LookAheadMode::LOOKAHEADMODE_AT_ROAD_CENTER)
     {
         // Look along center lane requested, adjust offset to end up on center lane
-        retval = target.SetLanePos(target.GetTrackId(), target.GetLaneId(), target.GetS(), -target.GetT() + SMALL_NUMBER * SIGN(GetLaneId()));
+        retval = target.SetLanePos(target.GetTrackId(),
+                                   target.GetLaneId(),
+                                   target.GetS(),
+                                   target.GetOffset() - target.GetT() + SMALL_NUMBER * SIGN(target.GetLaneId()));
     }
 
     if (retval != ReturnCode::ERROR_GENERIC)
-- 
2.43.0


From 45aaf5563d21261b38ec819e56380e1cdc5f3826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 31/55] fix: compare the absolute heading difference when
 filtering trajectory vertices

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 297394e..1d31465 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13019,7 +13019,7 @@ bool PolyLineShape::VerticesUnique(const Vertex& a, const Vertex& b, double dist
     }
 
     if ((PointDistance2D(a.pos_->GetX(), a.pos_->GetY(), b.pos_->GetX(), b.pos_->GetY()) < dist_threshold + SMALL_NUMBER) &&
-        (GetAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
+        (GetAbsAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
     {
         return false;
     }
-- 
2.43.0


From 8503b70bca1323a084a00f42da8f4a5bb2a8b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 32/55] fix: stay at the vertex during a stand-still phase of a
 trajectory in follow mode

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 1d31465..e587580 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13368,6 +13368,12 @@ int PolyLineShape::Evaluate(double p, TrajectoryParamType ptype, TrajVertex& pos
 
             //  ds = v0 * t + 1/2 * acc * t^2
             s = pline_.vertex_[i].s + dt * pline_.vertex_[i].speed + 0.5 * pline_.vertex_[i].acc * dt * dt;
+
+            // stay within the segment, e.g. when arriving with some speed at a stand-still phase
+            if (i + 1 < pline_.vertex_.size())
+            {
+                s = MIN(s, pline_.vertex_[i + 1].s);
+            }
         }
         else
         {
-- 
2.43.0


From 5ea3df3699182f2b976175025c0e5186dadd74c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:53 +0000
Subject: [PATCH 33/55] fix: consider the timing scale for the remainder of the
 frame at the end of a trajectory

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b72233d..79f986a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -539,7 +539,7 @@ void FollowTrajectoryAction::Step(double simTime, double dt)
         {
             // Move the remaning distance along road at current lane offset
             double remaningTime = time_ + timeOffset - (traj_->GetStartTime() + traj_->GetDuration());
-            remaningDistance    = remaningTime * object_->speed_;
+            remaningDistance    = remaningTime / AVOID_ZERO(timing_scale_) * object_->speed_;
         }
 
         // Move the remainder of distance along the current heading
-- 
2.43.0


From 5b40b8eb22307a68184343ccbc3583c432516c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:53 +0000
Subject: [PATCH 34/55] fix: keep the sign of the speed in sharp corners of a
 trajectory without explicit headings

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 79f986a..8012ff0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -565,7 +565,11 @@ void scenarioengine::FollowTrajectoryAction::Move(double simTime, double dt)
     double timeOffset = (timing_domain_ == TimingDomain::TIMING_ABSOLUTE && object_->IsGhost()) ? object_->GetHeadstartTime() : 0.0;
 
     movingDirection_     = 1;  // init to forward motion, will be re-evalutated for non-timestamp modes
-    int headingDirection = (GetAbsAngleDifference(object_->pos_.GetH(), traj_->GetHTrue()) > M_PI_2 + SMALL_NUMBER) ? -1 : 1;
+    int headingDirection = initialHeadingSign_;
+    if (traj_->IsHSetExplicitly())
+    {
+        headingDirection = (GetAbsAngleDifference(object_->pos_.GetH(), traj_->GetHTrue()) > M_PI_2 + SMALL_NUMBER) ? -1 : 1;
+    }
 
     // Move along trajectory
     if (
-- 
2.43.0


From fbb84125cd3b76ba24a69e30a3bb762da7734bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:53 +0000
Subject: [PATCH 35/55] fix: consider the timing offset in the end check of a
 trajectory with absolute timing

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 8012ff0..1044b1e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -608,7 +608,7 @@ void scenarioengine::FollowTrajectoryAction::Move(double simTime, double dt)
         object_->pos_.SetTrajectoryPosByTime(time_ + timeOffset + timing_offset_);
 
         if ((dt > SMALL_NUMBER) &&  // skip speed update if timestep is zero
-            (time_ + timeOffset < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
+            (time_ + timeOffset + timing_offset_ < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
         {
             // don't calculate and update actual speed when reached end of trajectory,
             // since the movement is based on remaining length of trajectory, not speed
-- 
2.43.0


From 439571d86d1afd7d399e140e2202f6ba02037f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 36/55] fix: an object sensor wrote beyond its list when more
 objects than its maximum were visible

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..321e3cb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,7 +61,7 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
-- 
2.43.0


From 26f180ebe675f7d9e3737f428c8dc5d6d2192c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 37/55] fix: an object sensor turned to one side listed objects
 on the other side

---
 .../ScenarioEngine/SourceFiles/IdealSensor.cpp     | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 321e3cb..18927ce 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -78,12 +78,6 @@ void ObjectSensor::Update()
 
         // Check whether object is within field of view
 
-        // find out angle between heading vector and line to object
-        double hx = 1.0;
-        double hy = 0.0;
-        double hx2, hy2;
-        RotateVec2D(hx, hy, host_->pos_.GetH(), hx2, hy2);
-
         double sensor_pos_x, sensor_pos_y;
         RotateVec2D(pos_.x, pos_.y, host_->pos_.GetH(), sensor_pos_x, sensor_pos_y);
         pos_.x_global = host_->pos_.GetX() + sensor_pos_x;
@@ -102,12 +96,8 @@ void ObjectSensor::Update()
             continue;
         }
 
-        double xon, yon;
-        NormalizeVec2D(xo, yo, xon, yon);
-
-        // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
-        double rel_angle = GetAbsAngleDifference(angle, pos_.h);
+        // Find angle between sensor direction and line to object
+        double rel_angle = GetAbsAngleDifference(atan2(yo, xo), GetAngleSum(host_->pos_.GetH(), pos_.h));
         if (rel_angle < fovH_ / 2)
         {
             hitList_[nObj_].obj_ = obj;
-- 
2.43.0


From cc337bef3f3852d140e3f1e6aadcfc94a59bcc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 38/55] fix: a skipped add or delete entity action never
 completed

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 8de1d88..5bf1c4a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -245,6 +245,7 @@ void AddEntityAction::Start(double simTime)
     if (entities_->activateObject(entity_) != 0)
     {
         LOG_WARN("AddEntityAction: Entity already active. Skipping action.");
+        OSCAction::Start(simTime);  // nothing to do, but let the action complete
         return;
     }
 
@@ -279,6 +280,7 @@ void DeleteEntityAction::Start(double simTime)
     if (entities_->deactivateObject(entity_) != 0)
     {
         LOG_WARN("DeleteEntityAction: Entity already deactivated. Skipping action.");
+        OSCAction::Start(simTime);  // nothing to do, but let the action complete
         return;
     }
 
-- 
2.43.0


From 266504462b0242a62b783a42a73a884ae6fc393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:41 +0000
Subject: [PATCH 39/55] fix: sensors referred to objects deleted by
 SE_DeleteObject

---
 .../Libraries/esminiLib/esminiLib.cpp         |  4 +++
 .../SourceFiles/IdealSensor.cpp               | 30 ++++++++++++++++++-
 .../SourceFiles/IdealSensor.hpp               |  3 ++
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 42abb41..151b1ee 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1191,6 +1191,10 @@ extern "C"
                 ctrl->UnlinkObject();
                 player->scenarioEngine->scenarioReader->RemoveController(ctrl);
             }
+            for (auto &sensor : player->sensor)
+            {
+                sensor->RemoveObject(obj);
+            }
             player->scenarioEngine->entities_.removeObject(object_id);
             return 0;
         }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 18927ce..cf5dfd7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,6 +61,12 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
+    if (host_ == nullptr)
+    {
+        // host object has been deleted
+        return;
+    }
+
     for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
@@ -147,4 +153,26 @@ void ObjectSensor::Update()
             nObj_++;
         }
     }
-}
\ No newline at end of file
+}
+
+void ObjectSensor::RemoveObject(const Object *obj)
+{
+    if (host_ == obj)
+    {
+        host_ = nullptr;
+        nObj_ = 0;
+    }
+
+    for (int i = 0; i < nObj_; i++)
+    {
+        if (hitList_[i].obj_ == obj)
+        {
+            for (int j = i; j < nObj_ - 1; j++)
+            {
+                hitList_[j] = hitList_[j + 1];
+            }
+            nObj_--;
+            i--;
+        }
+    }
+}
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
index 3041ebb..a3351c8 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
@@ -94,6 +94,9 @@ namespace scenarioengine
         ~ObjectSensor();
         void Update();
 
+        // Forget object, which is about to be deleted
+        void RemoveObject(const Object *obj);
+
     private:
         Entities *entities_;  // Reference to the global collection of objects within the scenario
     };
-- 
2.43.0


From 364e84d48859ef469844d8555f3dee47eed509bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:02 +0000
Subject: [PATCH 40/55] fix: sample points of clothoid splines had wrong times
 and end position, and short segments were skipped

---
 .../Modules/RoadManager/RoadManager.cpp            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index e587580..60d6150 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13632,7 +13632,7 @@ void ClothoidSplineShape::CalculatePolyLine()
     {
         if (i < steps)
         {
-            if (i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
+            while (j < segments_.size() - 1 && i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
             {
                 // step segment
                 length_sum += segments_[j].length_;
@@ -13643,7 +13643,11 @@ void ClothoidSplineShape::CalculatePolyLine()
         else
         {
             // Add endpoint of last clothoid
-            EvaluateInternal(length_ - length_sum, static_cast<unsigned int>(segments_.size() - 1), v);
+            for (; j < segments_.size() - 1; j++)
+            {
+                length_sum += segments_[j].length_;
+            }
+            EvaluateInternal(length_ - length_sum, j, v);
         }
 
         // Resolve road coordinates to get elevation at point since the clothoid only provides 2D
@@ -13652,8 +13656,10 @@ void ClothoidSplineShape::CalculatePolyLine()
         v.z      = pos.GetZ();
         v.h_true = v.h;
 
-        v.param = v.s = i * stepLen;
-        v.time        = segments_.front().time_ + (i * stepLen / length_) * segments_.back().time_;
+        v.param = v.s = i < steps ? i * stepLen : length_;
+
+        double time_end = j < segments_.size() - 1 ? segments_[j + 1].time_ : GetEndTime();
+        v.time          = segments_[j].time_ + (v.s - length_sum) / AVOID_ZERO(segments_[j].length_) * (time_end - segments_[j].time_);
 
         pline_.AddVertex(v);
     }
-- 
2.43.0


From 064a549ebc0e4be513ce21bfb05b4de7c9737eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:02 +0000
Subject: [PATCH 41/55] fix: clothoid trajectories with a start time other than
 zero were evaluated at the wrong place

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 60d6150..483e1a5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14169,8 +14169,8 @@ void ClothoidShape::CalculatePolyLine()
                 }
             }
         }
-        v.param = v.s = i * stepLen;
-        v.time        = t_start_ + (i * stepLen / spiral_.GetLength()) * t_end_;
+        v.param = v.s = i < steps ? i * stepLen : spiral_.GetLength();
+        v.time        = t_start_ + (v.s / spiral_.GetLength()) * (t_end_ - t_start_);
         pline_.AddVertex(v);
     }
 
@@ -14200,12 +14200,12 @@ int ClothoidShape::Evaluate(double p, TrajectoryParamType ptype, TrajVertex& pos
         {
             double t = p - t_start_;
             // Transform time parameter value into a s value
-            p = GetLength() * (t - t_start_) / (t_end_ - t_start_);
+            p = GetLength() * t / (t_end_ - t_start_);
         }
         else
         {
             LOG_ERROR("Requested time {:.2f} outside range [{:.2f}, {:.2f}]", p, t_start_, t_end_);
-            p = GetLength();
+            p = p < t_start_ ? 0.0 : GetLength();
         }
     }
     else if (p > GetLength())
-- 
2.43.0


From f86d6ac0a5ffe14af695311b6b18084057c4ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:02 +0000
Subject: [PATCH 42/55] fix: an entity waiting for the start time of a clothoid
 spline was placed at its end

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 483e1a5..8062698 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13514,7 +13514,7 @@ int ClothoidSplineShape::Evaluate(double p, TrajectoryParamType ptype, TrajVerte
         else
         {
             LOG_WARN("ClothoidSplineShape::Evaluate Requested time {:.2f} outside range [{:.2f}, {:.2f}]", p, GetStartTime(), GetEndTime());
-            p = GetLength();
+            p = p < GetStartTime() ? 0.0 : GetLength();
         }
     }
     else if (p > GetLength())
-- 
2.43.0


From d094934f6497789a04e712e54af66d2122268cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:41 +0000
Subject: [PATCH 43/55] fix: injected actions referred to objects deleted by
 SE_DeleteObject

---
 .../Libraries/esminiLib/esminiLib.cpp           |  1 +
 .../Modules/PlayerBase/PlayerServer.cpp         | 17 +++++++++++++++++
 .../Modules/PlayerBase/PlayerServer.hpp         |  1 +
 3 files changed, 19 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 151b1ee..542f1ad 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1195,6 +1195,7 @@ extern "C"
             {
                 sensor->RemoveObject(obj);
             }
+            player->player_server_->DeleteActionsOfObject(obj);
             player->scenarioEngine->entities_.removeObject(object_id);
             return 0;
         }
diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 4c8fc47..b587cff 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -94,6 +94,23 @@ namespace scenarioengine
         action_.erase(action_.begin() + index);
     }
 
+    void PlayerServer::DeleteActionsOfObject(const Object *obj)
+    {
+        SE_ScopedLock lock(player_->scenarioEngine->mutex_);
+
+        for (size_t i = 0; i < action_.size();)
+        {
+            if (action_[i]->GetBaseType() == OSCAction::BaseType::PRIVATE && static_cast<OSCPrivateAction *>(action_[i])->object_ == obj)
+            {
+                DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
+                i++;
+            }
+        }
+    }
+
     int PlayerServer::NumberOfActions() const
     {
         return static_cast<int>(action_.size());
diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.hpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.hpp
index 3a7ca8f..7564b87 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.hpp
@@ -102,6 +102,7 @@ namespace scenarioengine
 
         int                                      AddAction(OSCAction* action);
         void                                     DeleteAction(unsigned int index);
+        void                                     DeleteActionsOfObject(const Object* obj);
         int                                      NumberOfActions() const;
         void                                     Step();
         std::string                              Type2Name(UDP_ACTION_TYPE type);
-- 
2.43.0


From 159dd16617989cae9233d2629d777812dc4211c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:47 +0000
Subject: [PATCH 44/55] fix: keep update time per distance measurement, not
 shared by all types of a pair

---
 .../SourceFiles/ScenarioEngine.cpp            | 29 +++++++++++--------
 .../SourceFiles/ScenarioEngine.hpp            |  6 ++--
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index fabb6fa..99be87e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -1244,14 +1244,19 @@ int ScenarioEngine::UpdateDistance(Object*                            obj_1,
                                   (obj_1->pos_.GetY() - obj_2->pos_.GetY()) * (obj_1->pos_.GetY() - obj_2->pos_.GetY());
         if (squared_distance > 2.5e5)  // 500 * 500m
         {
-            euclidian_entry.distance_       = squared_distance;
-            euclidian_entry.timestamp_      = simulationTime_;
-            distance_entry.next_update_     = simulationTime_ + 3.0;
-            auto& rev_distance_entry        = rev_it->second;
-            auto& rev_measurement           = rev_distance_entry.measurement_[idx_euclidian_abs];
-            rev_measurement.distance_       = squared_distance;
-            rev_measurement.timestamp_      = simulationTime_;
-            rev_distance_entry.next_update_ = simulationTime_ + 3.0;
+            euclidian_entry.distance_  = squared_distance;
+            euclidian_entry.timestamp_ = simulationTime_;
+            auto& rev_distance_entry   = rev_it->second;
+            auto& rev_measurement      = rev_distance_entry.measurement_[idx_euclidian_abs];
+            rev_measurement.distance_  = squared_distance;
+            rev_measurement.timestamp_ = simulationTime_;
+
+            // out of range applies to all distance types, in both directions
+            for (size_t i = 0; i < distance_entry.measurement_.size(); i++)
+            {
+                distance_entry.measurement_[i].next_update_     = simulationTime_ + 3.0;
+                rev_distance_entry.measurement_[i].next_update_ = simulationTime_ + 3.0;
+            }
 
             return -2;
         }
@@ -1267,9 +1272,9 @@ int ScenarioEngine::UpdateDistance(Object*                            obj_1,
         next_update = simulationTime_ + 3.0;
     }
 
-    measurement.distance_       = dist;
-    measurement.timestamp_      = simulationTime_;
-    distance_entry.next_update_ = next_update;
+    measurement.distance_    = dist;
+    measurement.timestamp_   = simulationTime_;
+    measurement.next_update_ = next_update;
 
     return 0;
 }
@@ -1293,7 +1298,7 @@ int ScenarioEngine::GetDistance(Object*                           object_1,
 
     int  dist_updated = -2;
     auto it           = object_distance_map_.find(key);
-    bool needs_update = (it == object_distance_map_.end() || simulationTime_ > it->second.next_update_ ||
+    bool needs_update = (it == object_distance_map_.end() || simulationTime_ > it->second.measurement_[static_cast<size_t>(dist_type)].next_update_ ||
                          object_1->dirty_.Check(Object::DirtyBit::TELEPORT) || object_2->dirty_.Check(Object::DirtyBit::TELEPORT));
     if (needs_update)
     {
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
index d88795d..2dd7678 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
@@ -190,14 +190,14 @@ namespace scenarioengine
         // Distance map
         struct DistanceMeasurement
         {
-            double distance_  = 10000.0;
-            double timestamp_ = 0.0;
+            double distance_    = 10000.0;
+            double timestamp_   = 0.0;
+            double next_update_ = -LARGE_NUMBER;  // not measured yet
         };
 
         struct DistanceEntry
         {
             std::array<DistanceMeasurement, static_cast<size_t>(roadmanager::RelativeDistanceType::ENUM_SIZE)> measurement_;
-            double                                                                                             next_update_ = 0.0;
         };
 
         inline uint64_t GenerateKey(int id1, int id2) const
-- 
2.43.0


From bc896ea3d32cf8a136293718dd748fe5c78b500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:47 +0000
Subject: [PATCH 45/55] fix: forget removed entities in the collision lists of
 the others

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index a45151f..59d65e0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1692,6 +1692,16 @@ void Entities::removeObject(Object* object, bool recursive)
     }
 
     object_.erase(std::remove(object_.begin(), object_.end(), object), object_.end());
+
+    // other entities might be registered as colliding with the removed one
+    for (auto& list : {&object_, &object_pool_})
+    {
+        for (auto* obj : *list)
+        {
+            obj->collisions_.erase(std::remove(obj->collisions_.begin(), obj->collisions_.end(), object), obj->collisions_.end());
+        }
+    }
+
     delete object;
 
     return;
-- 
2.43.0


From fb040b1c0eb097861ddca45d4c015f99e9779998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:57 +0000
Subject: [PATCH 46/55] fix: relative lane positions continue in the linked
 lane and refer to the lane's driving direction

---
 .../Modules/RoadManager/RoadManager.cpp       | 20 +++++--------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 8062698..f4333e6 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14486,24 +14486,14 @@ void Position::EvaluateRelation(bool release)
                 {
                     if (GetDirectionMode() == DirectionMode::ALONG_LANE)
                     {
-                        // Consider road rule (left hand or right hand traffic)
-                        if ((IsAngleForward(rel_pos_->GetHRelative()) &&
-                             (rel_pos_->GetLaneId() < 0 && road->GetRule() == Road::RoadRule::RIGHT_HAND_TRAFFIC)) ||
-                            (!IsAngleForward(rel_pos_->GetHRelative()) &&
-                             (rel_pos_->GetLaneId() > 0 && road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)))
-                        {
-                            new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), relative_.dLane);  // along road s axis
-                            new_offset  = relative_.offset;
-                        }
-                        else
-                        {
-                            new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), -relative_.dLane);  // opposite s axis
-                            new_offset  = -relative_.offset;
-                        }
+                        // Relate to driving direction of the lane, considering road rule (left hand or right hand traffic)
+                        int dir     = GetDrivingDirectionRelativeRoad();
+                        new_lane_id = GetRelativeLaneId(GetLaneId(), dir * relative_.dLane);
+                        new_offset  = dir * relative_.offset;
                     }
                     else
                     {
-                        new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), relative_.dLane);  // do not consider driving direction
+                        new_lane_id = GetRelativeLaneId(GetLaneId(), relative_.dLane);  // do not consider driving direction
                         new_offset  = relative_.offset;
                     }
                 }
-- 
2.43.0


From 7f324566d655e8c2c3498a60ab62ba300efc31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:57 +0000
Subject: [PATCH 47/55] fix: honour absolute orientation of relative lane and
 road positions on sloped roads

---
 .../Modules/RoadManager/RoadManager.cpp       | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index f4333e6..ce1d143 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14563,47 +14563,56 @@ void Position::EvaluateRelation(bool release)
     // Now when road orientation and elevation is known, update the position object accordingly
     if (GetType() == Position::PositionType::RELATIVE_LANE || GetType() == Position::PositionType::RELATIVE_ROAD)
     {
+        // collect mode for all components before evaluating the resulting orientation
+        int mode = 0;
+
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::H_MASK) == Position::PosMode::H_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::H_MASK) == 0)  // not set
         {
+            mode |= Position::PosMode::H_REL;
             if (GetType() == Position::PositionType::RELATIVE_LANE && GetDirectionMode() == Position::DirectionMode::ALONG_LANE)
             {
                 // ds -> s is along road, dsLane -> s is along road
                 // for dsLane, adjust relative heading to the driving direction of the lane
-                SetHeadingRelative(GetAngleSum(relative_.dh, GetDrivingDirectionRelativeRoad() < 0 ? M_PI : 0.0));
+                SetHeadingRelative(GetAngleSum(relative_.dh, GetDrivingDirectionRelativeRoad() < 0 ? M_PI : 0.0), false);
             }
             else
             {
-                SetHeadingRelative(relative_.dh);
+                SetHeadingRelative(relative_.dh, false);
             }
         }
         else
         {
-            SetHeading(relative_.dh);
+            mode |= Position::PosMode::H_ABS;
+            SetHeading(relative_.dh, false);
         }
 
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::P_MASK) == Position::PosMode::P_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::P_MASK) == 0)  // not set
         {
-            SetPitchRelative(relative_.dp);
+            mode |= Position::PosMode::P_REL;
+            SetPitchRelative(relative_.dp, false);
         }
         else
         {
-            SetPitch(relative_.dp);
+            mode |= Position::PosMode::P_ABS;
+            SetPitch(relative_.dp, false);
         }
 
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::R_MASK) == Position::PosMode::R_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::R_MASK) == 0)  // not set
         {
-            SetRollRelative(relative_.dr);
+            mode |= Position::PosMode::R_REL;
+            SetRollRelative(relative_.dr, false);
         }
         else
         {
-            SetRoll(relative_.dr);
+            mode |= Position::PosMode::R_ABS;
+            SetRoll(relative_.dr, false);
         }
-    }
 
-    EvaluateHPR();
+        EvaluateHPR(mode);
+    }
 
     if (release)
     {
-- 
2.43.0


From c193ff0bcdaf79918a2f3eccc71f7e2bb91cd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:30 +0000
Subject: [PATCH 48/55] fix: lateral offset t of route positions was truncated
 to an integer

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 7a692c5..283838d 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -2179,7 +2179,7 @@ OSCPosition *ScenarioReader::parseOSCPosition(pugi::xml_node positionNode, OSCPo
                     else if (rPositionChildName == "FromRoadCoordinates")
                     {
                         double s = strtod(parameters.ReadAttribute(rPositionChild, "pathS"));
-                        int    t = strtoi(parameters.ReadAttribute(rPositionChild, "t"));
+                        double t = strtod(parameters.ReadAttribute(rPositionChild, "t"));
 
                         if (orientation)
                         {
-- 
2.43.0


From b06f3264979ec5f3547d9f6eb7ce9bfdf7187344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:30 +0000
Subject: [PATCH 49/55] fix: speed profile entries without time, relative or on
 a straight line were misplaced

The first of several entries without a time stamp replaced the start of the
profile, entries collinear with the previous one left the final acceleration
applied after the last target, a first entry relative to another entity lacked
its speed and constant profiles never ended. When reverting to linear mode,
stale segments remained ahead of the linear ones.
---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 102 ++++++------------
 1 file changed, 31 insertions(+), 71 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 1044b1e..33e29d1 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1373,13 +1373,13 @@ void LongSpeedProfileAction::Start(double simTime)
         {
             // replace first entry at time = 0.0 with current speed
             vertex.push_back(EntryVertex(init_time_, object_->GetSpeed()));
-            index = 1;  // Skip first entry
         }
         else
         {
             // in linear mode use specified initial speed
-            vertex.push_back(EntryVertex(init_time_, entry_[0].speed_));
+            vertex.push_back(EntryVertex(init_time_, entry_[0].speed_ + speed_offset));
         }
+        index = 1;  // Skip first entry
     }
     else  // negative time indicating time attribute omitted
     {
@@ -1387,90 +1387,45 @@ void LongSpeedProfileAction::Start(double simTime)
         vertex.push_back(EntryVertex(init_time_, object_->GetSpeed()));
     }
 
-    // First filter out any obsolete middle points on straight acceleration lines
-    double delta_k, j = 0.0, time = init_time_;
+    // Add a vertex for each entry, filter out any obsolete middle points on straight acceleration lines
+    double j = 0.0, time = init_time_;
     for (; index < entry_.size(); index++)
     {
-        double dt    = entry_[index].time_;
-        double k_tmp = (entry_[index].speed_ + speed_offset - (vertex.back().v_)) / dt;
+        double speed = entry_[index].speed_ + speed_offset;
+        double dv    = speed - vertex.back().v_;
+        double dt    = fabs(dv) / (dv < 0 ? dynamics_.max_deceleration_ : dynamics_.max_acceleration_);  // shortest possible time
 
-        if (entry_[index].time_ < -SMALL_NUMBER ||                                         // negative delta time
-            (k_tmp < -dynamics_.max_deceleration_ || k_tmp > dynamics_.max_acceleration_)  // required acceleration out of bounds
-        )
+        if (entry_[index].time_ > -SMALL_NUMBER)  // negative time is interpreted as missing time stamp
         {
-            double dv = entry_[index].speed_ + speed_offset - vertex.back().v_;
-            if (abs(dv) < SMALL_NUMBER)
-            {
-                // same speed as previous vertex, skip entry
-                continue;
-            }
-
-            if (entry_[index].time_ < -SMALL_NUMBER)
-            {
-                // negative time is interpreted as missing time stamp
-                if (dv < 0)
-                {
-                    k_tmp = MIN(-SMALL_NUMBER, -dynamics_.max_deceleration_);
-                }
-                else
-                {
-                    k_tmp = MAX(SMALL_NUMBER, dynamics_.max_acceleration_);
-                }
-            }
-            else
-            {
-                // Limit acceleration / deceleration to max values
-                k_tmp < 0 ? k_tmp = MAX(k_tmp, -dynamics_.max_deceleration_) : k_tmp = MIN(k_tmp, dynamics_.max_acceleration_);
-            }
-
-            vertex.back().t_ = time;
-            time += dv / k_tmp;
-        }
-        else
-        {
-            time += entry_[index].time_;
-        }
-
-        if (index < entry_.size() - 1)
-        {
-            if (dt < SMALL_NUMBER)
-            {
-                // replace previous entry
-                vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset);
-                continue;  // skip entry
-            }
+            // Extend the time if needed to respect max acceleration / deceleration
+            dt = MAX(dt, entry_[index].time_);
         }
 
-        vertex.back().SetK(k_tmp);
-
-        if (index > 1)
-        {
-            delta_k = vertex.back().k_ - (vertex.rbegin() + 1)->k_;  // last - second last
-        }
-        else
+        if (dt < SMALL_NUMBER && (fabs(dv) < SMALL_NUMBER || following_mode_ == FollowingMode::POSITION))
         {
-            delta_k = vertex.back().k_ - init_acc_;  // slope is zero at start - no delta
+            // nothing to do or immediate speed change, no need for a separate vertex
+            vertex.back().v_ = speed;
+            continue;
         }
 
-        if (abs(delta_k) < SMALL_NUMBER && index > 1)
-        {
-            // replace previous entry
-            double new_k  = (entry_[index].speed_ + speed_offset - (vertex.rbegin() + 1)->v_) / (time - (vertex.rbegin() + 1)->t_);
-            vertex.back() = EntryVertex(time, entry_[index].speed_ + speed_offset, new_k);
-            continue;  // skip entry
-        }
+        double k_tmp = dv / dt;
+        time += dt;
 
-        if (index == entry_.size() - 1)
+        if (following_mode_ == FollowingMode::FOLLOW && vertex.size() > 1 && fabs(k_tmp - (vertex.rbegin() + 1)->k_) < SMALL_NUMBER)
         {
-            // Final entry, set k = 0
-            vertex.push_back(EntryVertex(time, entry_[index].speed_ + speed_offset, 0.0));
+            // same acceleration as previous segment, replace previous vertex
+            vertex.back() = EntryVertex(time, speed);
         }
         else
         {
-            vertex.push_back(EntryVertex(time, entry_[index].speed_ + speed_offset));
+            vertex.back().SetK(k_tmp);
+            vertex.push_back(EntryVertex(time, speed));
         }
     }
 
+    // Final entry, set k = 0
+    vertex.back().SetK(0.0);
+
     EntryVertex vtx = vertex[0];
     double      t0, t1, t3 = vtx.t_, v0, v3 = 0.0, m0, m1 = 0.0, k1 = 0.0;
     double      k0 = init_acc_;
@@ -1670,12 +1625,17 @@ void LongSpeedProfileAction::Start(double simTime)
                     // g = (k ^ 2 - 2 k l + l ^ 2 - 2 m(n - o)) / (2 m(k - l))
                     t1 = (pow(k0, 2) - 2 * k0 * k1 + pow(k1, 2) - 2 * j * (m0 - m1)) / (2 * j * (k0 - k1));
 
-                    if (t1 < t0)
+                    if (t1 < t0 - SMALL_NUMBER)
                     {
                         LOG_WARN("LongSpeedProfileAction failed at point {} (time={:.2f}). Falling back to linear (Position) mode.",
                                  index,
                                  vertex[index].t_);
                         following_mode_ = FollowingMode::POSITION;
+                        while (!segment_.empty() && segment_.back().t > vtx.t_)
+                        {
+                            // linear mode takes over before start of this segment
+                            segment_.pop_back();
+                        }
                         continue;
                     }
 
@@ -1721,7 +1681,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
     elapsed_ = MAX(0.0, time - segment_[0].t);
 
-    if (static_cast<unsigned int>(cur_index_) >= entry_.size() - 1 && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
+    if (time > segment_.back().t - SMALL_NUMBER && fabs(speed_ - segment_.back().v) < SMALL_NUMBER)
     {
         speed_ = segment_.back().v;
         OSCAction::End();
-- 
2.43.0


From 60d996e5e2890bcd40c684f5f594eb46e5571a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:58 +0000
Subject: [PATCH 50/55] fix: distance actions kept an altered distance or
 displacement when executed again

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 38 +++++++-----
 .../OSCTypeDefs/OSCPrivateAction.hpp          | 58 ++++++++++---------
 2 files changed, 55 insertions(+), 41 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 33e29d1..1f402ce 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1789,7 +1789,8 @@ void LongDistanceAction::Start(double simTime)
         return;
     }
 
-    // Resolve displacement
+    // Resolve displacement, keep the specified one as is since the action might be executed again
+    resolved_displacement_ = displacement_;
     if (displacement_ == DisplacementType::ANY)
     {
         // Find out current displacement, and apply it
@@ -1811,14 +1812,16 @@ void LongDistanceAction::Start(double simTime)
 
         if (distance < 0.0)
         {
-            displacement_ = DisplacementType::LEADING;
+            resolved_displacement_ = DisplacementType::LEADING;
         }
         else
         {
-            displacement_ = DisplacementType::TRAILING;
+            resolved_displacement_ = DisplacementType::TRAILING;
         }
     }
 
+    acceleration_ = 0.0;
+
     OSCAction::Start(simTime);
 }
 
@@ -1860,11 +1863,11 @@ void LongDistanceAction::Step(double simTime, double dt)
         requested_dist = abs(target_object_->speed_) * distance_;
     }
 
-    if (displacement_ == DisplacementType::TRAILING)
+    if (resolved_displacement_ == DisplacementType::TRAILING)
     {
         requested_dist = abs(requested_dist);
     }
-    else if (displacement_ == DisplacementType::LEADING)
+    else if (resolved_displacement_ == DisplacementType::LEADING)
     {
         requested_dist = -abs(requested_dist);
     }
@@ -1965,33 +1968,38 @@ void LatDistanceAction::Start(double simTime)
     double ego_width    = object_->boundingbox_.dimensions_.width_;
     double target_width = target_object_->boundingbox_.dimensions_.width_;
 
+    // keep the specified distance as is, the action might be executed again
+    requested_dist_ = distance_;
+    lat_vel_        = 0.0;
+    acceleration_   = 0.0;
+
     if (cs_ == roadmanager::CoordinateSystem::CS_ENTITY)
     {
         if (freespace_)
         {
-            distance_ += (ego_width + target_width) / 2.0;
+            requested_dist_ += (ego_width + target_width) / 2.0;
         }
-        distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
+        requested_dist_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
         if (displacement_ == DisplacementType::LEFT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the left side of the target object
-            distance_ = -abs(distance_);
-            sign_     = -1.0;
+            requested_dist_ = -abs(distance_);
+            sign_           = -1.0;
         }
         else if (displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the right side of the target object
-            distance_ = abs(distance_);
-            sign_     = 1.0;
+            requested_dist_ = abs(distance_);
+            sign_           = 1.0;
         }
 
         if (freespace_)
         {
             // We only take the width of the cars into account if we are in freespace mode
-            distance_ += sign_ * (ego_width + target_width) / 2.0;
+            requested_dist_ += sign_ * (ego_width + target_width) / 2.0;
         }
     }
 
@@ -2069,11 +2077,11 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
     {
-        distance_error = -(pos_diff.dt + distance_);
+        distance_error = -(pos_diff.dt + requested_dist_);
     }
     else  // The cars are facing opposite directions
     {
-        distance_error = -(pos_diff.dt - distance_);
+        distance_error = -(pos_diff.dt - requested_dist_);
     }
 }
 
@@ -2095,7 +2103,7 @@ void LatDistanceAction::Step(double simTime, double dt)
         double step_len             = object_->GetSpeed() * dt;
 
         RotateVec2D(1.0, 0.0, target_object_->pos_.GetH(), target_obj_x_axis[0], target_obj_x_axis[1]);
-        RotateVec2D(0.0, distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
+        RotateVec2D(0.0, requested_dist_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
 
         // calculate target position, i.e. aiming point
         ProjectPointOnLine2D(object_->pos_.GetX(),
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 7b4cbc5..5949763 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -479,7 +479,8 @@ namespace scenarioengine
               freespace_(0),
               displacement_(DisplacementType::NONE),
               cs_(roadmanager::CoordinateSystem::CS_ENTITY),
-              acceleration_(0)
+              acceleration_(0),
+              resolved_displacement_(DisplacementType::NONE)
         {
         }
 
@@ -489,15 +490,16 @@ namespace scenarioengine
                                static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG))
         {
             SetName(action.GetName());
-            target_object_ = action.target_object_;
-            dynamics_      = action.dynamics_;
-            distance_      = action.distance_;
-            dist_type_     = action.dist_type_;
-            freespace_     = action.freespace_;
-            acceleration_  = action.acceleration_;
-            displacement_  = action.displacement_;
-            cs_            = action.cs_;
-            continuous_    = action.continuous_;
+            target_object_         = action.target_object_;
+            dynamics_              = action.dynamics_;
+            distance_              = action.distance_;
+            dist_type_             = action.dist_type_;
+            freespace_             = action.freespace_;
+            acceleration_          = action.acceleration_;
+            displacement_          = action.displacement_;
+            cs_                    = action.cs_;
+            continuous_            = action.continuous_;
+            resolved_displacement_ = action.resolved_displacement_;
         }
 
         OSCPrivateAction* Copy()
@@ -521,7 +523,8 @@ namespace scenarioengine
         void ReplaceObjectRefs(Object* obj1, Object* obj2);
 
     private:
-        double acceleration_;
+        double           acceleration_;
+        DisplacementType resolved_displacement_;
     };
 
     class LatDistanceAction : public OSCPrivateAction
@@ -569,7 +572,8 @@ namespace scenarioengine
               spring_(0.0, 0.0, 0.0),
               old_x_(0.0),
               old_y_(0.0),
-              sign_(0.0)
+              sign_(0.0),
+              requested_dist_(0.0)
         {
         }
 
@@ -577,20 +581,21 @@ namespace scenarioengine
             : OSCPrivateAction(OSCPrivateAction::ActionType::LAT_DISTANCE, action.parent_, static_cast<unsigned int>(ControlDomains::DOMAIN_LAT))
         {
             SetName(action.GetName());
-            target_object_ = action.target_object_;
-            dynamics_      = action.dynamics_;
-            distance_      = action.distance_;
-            dist_type_     = action.dist_type_;
-            freespace_     = action.freespace_;
-            continuous_    = action.continuous_;
-            displacement_  = action.displacement_;
-            cs_            = action.cs_;
-            lat_vel_       = action.lat_vel_;
-            acceleration_  = action.acceleration_;
-            spring_        = action.spring_;
-            old_x_         = action.old_x_;
-            old_y_         = action.old_y_;
-            sign_          = action.sign_;
+            target_object_  = action.target_object_;
+            dynamics_       = action.dynamics_;
+            distance_       = action.distance_;
+            dist_type_      = action.dist_type_;
+            freespace_      = action.freespace_;
+            continuous_     = action.continuous_;
+            displacement_   = action.displacement_;
+            cs_             = action.cs_;
+            lat_vel_        = action.lat_vel_;
+            acceleration_   = action.acceleration_;
+            spring_         = action.spring_;
+            old_x_          = action.old_x_;
+            old_y_          = action.old_y_;
+            sign_           = action.sign_;
+            requested_dist_ = action.requested_dist_;
         }
 
         OSCPrivateAction* Copy()
@@ -624,6 +629,7 @@ namespace scenarioengine
         double       old_x_;
         double       old_y_;
         double       sign_;
+        double       requested_dist_;
     };
 
     class LatLaneChangeAction : public OSCPrivateAction
-- 
2.43.0


From 9f40de11ed9191e08a22f1d1ee84c02d856f3776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:20 +0000
Subject: [PATCH 51/55] fix: synchronize action executed again, from the first
 frame, with standing master and with steady state position

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 1f402ce..aa2ff1e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2627,17 +2627,21 @@ void SynchronizeAction::Start(double simTime)
     if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
     {
         steadyState_.dist_ = steadyState_.time_ * final_speed_->GetValue();
-        steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
     }
     else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
     {
         // Find out distance between steady state position and final destination
         roadmanager::PositionDiff diff;
         target_position_.Delta(&steadyState_.pos_, diff);
-        steadyState_.dist_ = diff.ds;
-        steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
+        steadyState_.dist_ = fabs(diff.ds);
     }
 
+    // start over, the action might be executed again
+    mode_           = SynchMode::MODE_NONE;
+    submode_        = SynchSubmode::SUBMODE_NONE;
+    lastDist_       = LARGE_NUMBER;
+    lastMasterDist_ = LARGE_NUMBER;
+
     OSCAction::Start(simTime);
 
     if (object_->IsControllerModeOnDomains(ControlOperationMode::MODE_OVERRIDE, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)))
@@ -2668,7 +2672,6 @@ SynchronizeAction::~SynchronizeAction()
 void SynchronizeAction::Step(double simTime, double dt)
 {
     (void)simTime;
-    (void)dt;
     bool done                      = false;
     int  distance_direction_master = 1;  // assume by default that destination is ahead
 
@@ -2678,6 +2681,12 @@ void SynchronizeAction::Step(double simTime, double dt)
         return;
     }
 
+    if (dt < SMALL_NUMBER)
+    {
+        // first frame, velocities not established yet
+        return;
+    }
+
     // Calculate distance along road/route
     double                    masterDist = LARGE_NUMBER;
     double                    dist       = LARGE_NUMBER;
@@ -2806,7 +2815,7 @@ void SynchronizeAction::Step(double simTime, double dt)
 
         if (final_speed_)
         {
-            if (steadyState_.type_ != SteadyStateType::STEADY_STATE_NONE && mode_ != SynchMode::MODE_STEADY_STATE)
+            if (steadyState_.type_ != SteadyStateType::STEADY_STATE_NONE && mode_ != SynchMode::MODE_STEADY_STATE && masterTimeToDest < LARGE_NUMBER)
             {
                 double time_to_ss = steadyState_.dist_ / final_speed_->GetValue();
 
-- 
2.43.0


From f8e6c7f50b9b2d45b3a6aaa0be0c82e5d001159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:21 +0000
Subject: [PATCH 52/55] fix: ghost restart counted as travelled distance and
 movement

---
 .../ScenarioEngine/SourceFiles/ScenarioEngine.cpp    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index 99be87e..daeba05 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -781,6 +781,18 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 }
             }
         }
+        else if (obj->IsGhost())
+        {
+            // ghost restarts from its host/ego vehicle: the relocation is no movement, and what it has travelled ahead is undone
+            if (obj->ghost_Ego_ != nullptr)
+            {
+                obj->odometer_ = obj->ghost_Ego_->odometer_;
+            }
+            obj->state_old.pos_x = obj->pos_.GetX();
+            obj->state_old.pos_y = obj->pos_.GetY();
+            obj->state_old.pos_z = obj->pos_.GetZ();
+            obj->state_old.h     = obj->pos_.GetH();
+        }
 
         // Wheels (including friction) only needs updates for vehicles
         if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From 1821db264256e449aff888f129166f55616c181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:50 +0000
Subject: [PATCH 53/55] fix: ghost restart repeated teleport actions of the
 scenario

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp        | 7 +++----
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp  | 7 ++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 5949763..ba76353 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -1018,14 +1018,13 @@ namespace scenarioengine
         {
             ghost_restart_ = value;
         }
-
-    private:
-        bool ghost_restart_;
-
         bool IsGhostRestart() const
         {
             return ghost_restart_;
         }
+
+    private:
+        bool ghost_restart_;
     };
 
     class ConnectTrailerAction : public OSCPrivateAction
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index daeba05..1009f4e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -1107,8 +1107,8 @@ void ScenarioEngine::ResetEvents() const
                     {
                         Event* event = maneuver->event_[m];
 
-                        // The idea is that ghost having a teleport indicates it's a restart
-                        // since all original teleport actions remains on Ego
+                        // The idea is that ghost having a restart teleport indicates it's a restart
+                        // other teleport actions, specified in the scenario, are not repeated
                         if (event->GetCurrentState() == StoryBoardElement::State::COMPLETE)
                         {
                             bool HasTele = false;
@@ -1118,7 +1118,8 @@ void ScenarioEngine::ResetEvents() const
                                 if (action->GetBaseType() == OSCAction::BaseType::PRIVATE)
                                 {
                                     OSCPrivateAction* pa = static_cast<OSCPrivateAction*>(action);
-                                    if (pa->action_type_ == OSCPrivateAction::ActionType::TELEPORT)
+                                    if (pa->action_type_ == OSCPrivateAction::ActionType::TELEPORT &&
+                                        static_cast<TeleportAction*>(pa)->IsGhostRestart())
                                     {
                                         HasTele = true;
                                         break;
-- 
2.43.0


From bbde3c2c58f18a73cac81cf4541511afbbbf570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:07 +0000
Subject: [PATCH 54/55] fix: fill in road id and length of road signs in
 SE_GetRoadSign and RM_GetRoadSign

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 3 ++-
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 542f1ad..75351e1 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2505,11 +2505,12 @@ extern "C"
                     road_sign->y           = pos.GetY();
                     road_sign->z           = pos.GetZ();
                     road_sign->h           = pos.GetH();
+                    road_sign->roadId      = road_id;
                     road_sign->s           = pos.GetS();
                     road_sign->t           = pos.GetT();
                     road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                     road_sign->z_offset    = s->GetZOffset();
-                    road_sign->length      = s->GetLength();
+                    road_sign->length      = s->GetDepth();
                     road_sign->height      = s->GetHeight();
                     road_sign->width       = s->GetWidth();
 
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 67be392..0a9455d 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -986,11 +986,12 @@ extern "C"
                 road_sign->y           = pos.GetY();
                 road_sign->z           = pos.GetZ();
                 road_sign->h           = pos.GetH();
+                road_sign->roadId      = road_id;
                 road_sign->s           = pos.GetS();
                 road_sign->t           = pos.GetT();
                 road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                 road_sign->z_offset    = s->GetZOffset();
-                road_sign->length      = s->GetLength();
+                road_sign->length      = s->GetDepth();
                 road_sign->height      = s->GetHeight();
                 road_sign->width       = s->GetWidth();
 
-- 
2.43.0


From 7802aad96c3d29d0d1f8c7e5b34325e18984b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:19 +0000
Subject: [PATCH 55/55] fix: a speed profile action executed again kept the
 linear mode it had reverted to

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 29 ++++++++++---------
 .../OSCTypeDefs/OSCPrivateAction.hpp          | 18 +++++++-----
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index aa2ff1e..7face28 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1358,6 +1358,9 @@ void LongSpeedProfileAction::Start(double simTime)
 
     init_acc_ = object_->pos_.GetAccLong();
 
+    // The mode might be reverted to linear below, keep the specified one as is since the action might be executed again
+    active_following_mode_ = following_mode_;
+
     std::vector<EntryVertex> vertex;
     unsigned int             index = 0;
 
@@ -1369,7 +1372,7 @@ void LongSpeedProfileAction::Start(double simTime)
     }
     else if (entry_[0].time_ > -SMALL_NUMBER)
     {
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (active_following_mode_ == FollowingMode::FOLLOW)
         {
             // replace first entry at time = 0.0 with current speed
             vertex.push_back(EntryVertex(init_time_, object_->GetSpeed()));
@@ -1401,7 +1404,7 @@ void LongSpeedProfileAction::Start(double simTime)
             dt = MAX(dt, entry_[index].time_);
         }
 
-        if (dt < SMALL_NUMBER && (fabs(dv) < SMALL_NUMBER || following_mode_ == FollowingMode::POSITION))
+        if (dt < SMALL_NUMBER && (fabs(dv) < SMALL_NUMBER || active_following_mode_ == FollowingMode::POSITION))
         {
             // nothing to do or immediate speed change, no need for a separate vertex
             vertex.back().v_ = speed;
@@ -1411,7 +1414,7 @@ void LongSpeedProfileAction::Start(double simTime)
         double k_tmp = dv / dt;
         time += dt;
 
-        if (following_mode_ == FollowingMode::FOLLOW && vertex.size() > 1 && fabs(k_tmp - (vertex.rbegin() + 1)->k_) < SMALL_NUMBER)
+        if (active_following_mode_ == FollowingMode::FOLLOW && vertex.size() > 1 && fabs(k_tmp - (vertex.rbegin() + 1)->k_) < SMALL_NUMBER)
         {
             // same acceleration as previous segment, replace previous vertex
             vertex.back() = EntryVertex(time, speed);
@@ -1439,7 +1442,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         AddSpeedSegment(vtx.t_, vtx.v_, 0.0, 0.0);
     }
-    else if (following_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
+    else if (active_following_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
     {
         // Special case: Single speed target, following mode = follow
         // Reach target speed with given jerk contraint. Add linear segment if needed.
@@ -1580,7 +1583,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         // Normal case: Follow acceleration (slopes) of multiple speed targets over time
 
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (active_following_mode_ == FollowingMode::FOLLOW)
         {
             if (abs(vtx.k_) > SMALL_NUMBER)
             {
@@ -1600,7 +1603,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         for (index = 0; index < vertex.size(); index++)
         {
-            if (following_mode_ == FollowingMode::POSITION)
+            if (active_following_mode_ == FollowingMode::POSITION)
             {
                 vtx = vertex[index];
                 AddSpeedSegment(vtx.t_, vtx.v_, vtx.k_, 0.0);
@@ -1630,7 +1633,7 @@ void LongSpeedProfileAction::Start(double simTime)
                         LOG_WARN("LongSpeedProfileAction failed at point {} (time={:.2f}). Falling back to linear (Position) mode.",
                                  index,
                                  vertex[index].t_);
-                        following_mode_ = FollowingMode::POSITION;
+                        active_following_mode_ = FollowingMode::POSITION;
                         while (!segment_.empty() && segment_.back().t > vtx.t_)
                         {
                             // linear mode takes over before start of this segment
@@ -1692,7 +1695,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
 void LongSpeedProfileAction::CheckAcceleration(double acc)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1704,13 +1707,13 @@ void LongSpeedProfileAction::CheckAcceleration(double acc)
                  dynamics_.max_acceleration_,
                  -dynamics_.max_deceleration_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_following_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1722,13 +1725,13 @@ void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
                  dynamics_.max_acceleration_rate_,
                  -dynamics_.max_deceleration_rate_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_following_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckSpeed(double speed)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (active_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1740,7 +1743,7 @@ void LongSpeedProfileAction::CheckSpeed(double speed)
                  dynamics_.max_speed_,
                  -dynamics_.max_speed_);
 
-        following_mode_ = FollowingMode::POSITION;
+        active_following_mode_ = FollowingMode::POSITION;
     }
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index ba76353..9766476 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -351,6 +351,7 @@ namespace scenarioengine
 
         std::vector<Entry>        entry_;
         FollowingMode             following_mode_;
+        FollowingMode             active_following_mode_;  // following mode of current execution
         DynamicConstraints        dynamics_;
         Object*                   entity_ref_;
         std::vector<SpeedSegment> segment_;
@@ -361,6 +362,7 @@ namespace scenarioengine
                                parent,
                                static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
               following_mode_(FollowingMode::POSITION),
+              active_following_mode_(FollowingMode::POSITION),
               entity_ref_(nullptr),
               cur_index_(0),
               speed_(0.0),
@@ -373,6 +375,7 @@ namespace scenarioengine
                                parent,
                                static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
               following_mode_(follow_mode),
+              active_following_mode_(follow_mode),
               entity_ref_(nullptr),
               cur_index_(0),
               speed_(0.0),
@@ -386,13 +389,14 @@ namespace scenarioengine
                                static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG))
         {
             SetName(action.GetName());
-            following_mode_ = action.following_mode_;
-            entry_          = action.entry_;
-            entity_ref_     = action.entity_ref_;
-            speed_          = action.speed_;
-            acc_            = action.acc_;
-            cur_index_      = action.cur_index_;
-            segment_        = action.segment_;
+            following_mode_        = action.following_mode_;
+            active_following_mode_ = action.active_following_mode_;
+            entry_                 = action.entry_;
+            entity_ref_            = action.entity_ref_;
+            speed_                 = action.speed_;
+            acc_                   = action.acc_;
+            cur_index_             = action.cur_index_;
+            segment_               = action.segment_;
         }
 
         OSCPrivateAction* Copy()
-- 
2.43.0

