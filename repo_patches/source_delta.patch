From 98b600dd461808a499e3276a719cb1a997363b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 01/16] fix: copying a SwitchElectConfigData stored the switch
 resistance as the default conductivity

---
 aspects/electrical/Switch/SwitchElect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index a270a72..7cf0c5e 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -51,7 +51,7 @@ mSwitchName(name) {
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
 SwitchElectConfigData::SwitchElectConfigData(const SwitchElectConfigData& that)
-:GunnsBasicConductorConfigData(that.mName, that.mNodeList, that.mSwitchConfigData.mDefaultSwitchResistance),
+:GunnsBasicConductorConfigData(that),
 mSwitchConfigData(that.mSwitchConfigData),
 mSwitchName(that.mSwitchName) {
     // nothing to do
-- 
2.43.0


From 6149101d0cfa9c5bbf060c8d39a93846ee873bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 02/16] fix: copying SwitchElect and PowerBusElect input data
 dropped the initial node map

---
 aspects/electrical/PowerBus/PowerBusElect.cpp | 2 +-
 aspects/electrical/Switch/SwitchElect.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/PowerBus/PowerBusElect.cpp b/aspects/electrical/PowerBus/PowerBusElect.cpp
index 98238e5..2309b17 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.cpp
+++ b/aspects/electrical/PowerBus/PowerBusElect.cpp
@@ -130,7 +130,7 @@ PowerBusElectInputData::~PowerBusElectInputData()
 PowerBusElectInputData::PowerBusElectInputData(const PowerBusElectInputData& that)
 
 :
-                GunnsBasicLinkInputData(that.mMalfBlockageFlag, that.mMalfBlockageValue),
+                GunnsBasicLinkInputData(that),
                 mMaxConductance(that.mMaxConductance),
                 mMinConductance(that.mMinConductance),
                 mConnection0(that.mConnection0)
diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index 7cf0c5e..36ff865 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -84,7 +84,7 @@ mSwitchInputData(inputData) {
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
 SwitchElectInputData::SwitchElectInputData(const SwitchElectInputData& that)
-:GunnsBasicConductorInputData(that.mMalfBlockageFlag, that.mMalfBlockageValue),
+:GunnsBasicConductorInputData(that),
 mSwitchInputData(that.mSwitchInputData) {
     // nothing to do
 }
-- 
2.43.0


From 639f6f82d2ca90911bc58089416fbf93bba28a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 03/16] fix: SorbateProperties assignment left the compound of
 the assigned-to object

---
 ms-utils/properties/SorbantProperties.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ms-utils/properties/SorbantProperties.cpp b/ms-utils/properties/SorbantProperties.cpp
index ca692a1..dc7f195 100644
--- a/ms-utils/properties/SorbantProperties.cpp
+++ b/ms-utils/properties/SorbantProperties.cpp
@@ -122,6 +122,7 @@ SorbateProperties::SorbateProperties(const SorbateProperties& that)
 SorbateProperties& SorbateProperties::operator =(const SorbateProperties& that)
 {
     if (this != &that) {
+        mCompound          = that.mCompound;
         mBlockingCompounds = that.mBlockingCompounds;
         mOffgasCompounds   = that.mOffgasCompounds;
     }
-- 
2.43.0


From 36a12c80f16fbc03719866704e7ad18940df4249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 04/16] fix: three constructors left an attribute uninitialized
 (Switch init flag, volume monitor pointer, resistive load)

---
 aspects/electrical/Switch/Switch.cpp                | 3 ++-
 aspects/electrical/resistive/GunnsResistiveLoad.cpp | 3 ++-
 core/GunnsFluidVolumeMonitor.cpp                    | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/aspects/electrical/Switch/Switch.cpp b/aspects/electrical/Switch/Switch.cpp
index d8d5676..150db91 100755
--- a/aspects/electrical/Switch/Switch.cpp
+++ b/aspects/electrical/Switch/Switch.cpp
@@ -271,7 +271,8 @@ Switch::Switch()
             mSwitchStateEnum(0),
             mSwitchCardName(),
             mSwitchCardPosition(1),
-            mPortsAreReversed(false) {
+            mPortsAreReversed(false),
+            mInitFlag(false) {
     // do nothing
 }
 
diff --git a/aspects/electrical/resistive/GunnsResistiveLoad.cpp b/aspects/electrical/resistive/GunnsResistiveLoad.cpp
index 53087a9..058c2ec 100644
--- a/aspects/electrical/resistive/GunnsResistiveLoad.cpp
+++ b/aspects/electrical/resistive/GunnsResistiveLoad.cpp
@@ -129,7 +129,8 @@ GunnsResistiveLoad::GunnsResistiveLoad():
     mVoltage(0.0),
     mUnderVoltageLimit(0.0),
     mPowerValid(false),
-    mSwitchPrevClosed(false)
+    mSwitchPrevClosed(false),
+    mLoadConfigResistance(0.0)
 {
     // nothing to do
 }
diff --git a/core/GunnsFluidVolumeMonitor.cpp b/core/GunnsFluidVolumeMonitor.cpp
index 3e4dba4..6d71875 100755
--- a/core/GunnsFluidVolumeMonitor.cpp
+++ b/core/GunnsFluidVolumeMonitor.cpp
@@ -75,6 +75,7 @@ GunnsFluidVolumeMonitor::GunnsFluidVolumeMonitor(const GunnsNodeList&  nodeList,
     mNodeMass            (0.0),
     mNodeMassFractions   (0),
     mNodeMoleFractions   (0),
+    mNodeTcMoleFractions (0),
     mNodeVolume          (0.0)
 {
     // nothing to do
-- 
2.43.0


From cba64a8e550baf460a6224fc540a9bc9281d08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 05/16] fix: initialization flag stayed set when a later
 validation failed (or was never set) in nine models

---
 aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp       | 3 +++
 aspects/electrical/IPS/GunnsElectIps.cpp                 | 9 +++++++++
 aspects/electrical/PowerBus/PowerBusElect.cpp            | 3 +++
 aspects/electrical/Switch/SwitchElect.cpp                | 7 +++++++
 aspects/fluid/source/GunnsFluidMultiSeparator.cpp        | 3 +++
 aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp     | 3 +++
 core/GunnsBasicNode.cpp                                  | 4 +++-
 .../aspects/signal/effectors/thermostat/HtrControl.cpp   | 3 +++
 gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp   | 5 +++++
 ms-utils/math/approximation/TsBilinearInterpolator.cpp   | 3 +++
 10 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
index 5c91331..9b92adc 100755
--- a/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
+++ b/aspects/dynamics/GunnsDynSingleRigidStateDeriv.cpp
@@ -69,6 +69,9 @@ GunnsDynSingleRigidStateDeriv::~GunnsDynSingleRigidStateDeriv()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsDynSingleRigidStateDeriv::initialize(const std::string& name)
 {
+    /// - Reset init flag.
+    mInitFlag = false;
+
     /// - Initialize dummy nodes for the base link class & solver.
     mDummyNodes[0].initialize(mName + ".mDummyNodes_0", 0.0);
     mDummyNodes[1].initialize(mName + ".mDummyNodes_1", 0.0);
diff --git a/aspects/electrical/IPS/GunnsElectIps.cpp b/aspects/electrical/IPS/GunnsElectIps.cpp
index a377349..2542ea8 100644
--- a/aspects/electrical/IPS/GunnsElectIps.cpp
+++ b/aspects/electrical/IPS/GunnsElectIps.cpp
@@ -230,6 +230,9 @@ void GunnsElectIps::initialize(GunnsElectIpsConfigData       &configData,
                                std::vector<GunnsBasicLink*>& networkLinks,
                                std::vector<int>*             portsVector)
 {
+    /// - Reset init flag.
+    mInitFlag = false;
+
     /// - set the number of ports
     mNumberOfPowerSources = portsVector->size();
     mNumPorts             = mNumberOfPowerSources;
@@ -250,6 +253,9 @@ void GunnsElectIps::initialize(GunnsElectIpsConfigData       &configData,
     /// - Call BasicLink::initialize to set up ports.
     GunnsBasicLink::initialize(configData, inputData, networkLinks, ports);
 
+    /// - Reset init flag.
+    mInitFlag = false;
+
     // Initialize the Power Supply voltage values from the PotentialVector gunns which can
     // be initialized to a voltage at startup
     allocateArrays();
@@ -293,6 +299,9 @@ void GunnsElectIps::initialize(GunnsElectIpsConfigData       &configData,
             mPowerValid = true;
         }
     }
+
+    /// - Set init flag on successful validation.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/aspects/electrical/PowerBus/PowerBusElect.cpp b/aspects/electrical/PowerBus/PowerBusElect.cpp
index 2309b17..3e80749 100755
--- a/aspects/electrical/PowerBus/PowerBusElect.cpp
+++ b/aspects/electrical/PowerBus/PowerBusElect.cpp
@@ -190,6 +190,9 @@ void PowerBusElect::initialize(      PowerBusElectConfigData &configData,
 {
     GunnsBasicLink::initialize(configData, inputData, networkLinks, ports);
 
+    /// - Reset init flag.
+    mInitFlag = false;
+
     validateData(configData,inputData,loads);
 
     mNumLoads = configData.mNumLoads;
diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index 36ff865..46526ab 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -129,10 +129,17 @@ void SwitchElect::initialize(const SwitchElectConfigData& configData,
         const int port1) {
     /// - Initialize the parent class.
     GunnsBasicConductor::initialize(configData, inputData, networkLinks, port0, port1);
+
+    /// - Reset init flag.
+    mInitFlag = false;
+
     mSwitch.initialize(configData.mSwitchConfigData, inputData.mSwitchInputData, configData.mSwitchName);
     mCurrent= 0.0;
     mVoltage= 0.0;
     mTimeStep = 0.0;
+
+    /// - Set init flag on successful initialization.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
index 7fcac39..c12336c 100644
--- a/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
+++ b/aspects/fluid/source/GunnsFluidMultiSeparator.cpp
@@ -241,6 +241,9 @@ void GunnsFluidMultiSeparator::initialize(const GunnsFluidMultiSeparatorConfigDa
     }
     GunnsFluidLink::initialize(configData, inputData, networkLinks, ports);
 
+    /// - Reset initialization flag.
+    mInitFlag = false;
+
     /// - Validate the config & input data.  It's split into separate functions to keep the function
     ///   lengths reasonable.
     validate(configData, inputData);
diff --git a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
index a544fc9..6695278 100644
--- a/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
+++ b/aspects/fluid/source/GunnsFluidSelectiveMembrane.cpp
@@ -165,6 +165,9 @@ void GunnsFluidSelectiveMembrane::initialize(const GunnsFluidSelectiveMembraneCo
                                              const int                                    port1,
                                              const int                                    port2)
 {
+    /// - Reset initialization status flag.
+    mInitFlag = false;
+
     /// - Validate configuration data.
     validate(configData);
 
diff --git a/core/GunnsBasicNode.cpp b/core/GunnsBasicNode.cpp
index 03f4ae3..00235e1 100755
--- a/core/GunnsBasicNode.cpp
+++ b/core/GunnsBasicNode.cpp
@@ -84,6 +84,9 @@ GunnsBasicNode::~GunnsBasicNode()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void GunnsBasicNode::initialize(const std::string& name, const double potential)
 {
+    /// - Reset init flag.
+    mInitFlag = false;
+
     /// - Validate and initialize node name from the name argument.
     GUNNS_NAME_ERREX("GunnsBasicNode", name);
 
@@ -98,7 +101,6 @@ void GunnsBasicNode::initialize(const std::string& name, const double potential)
     mScheduledOutflux          = 0.0;
     mIslandVector              = 0;
     mNetCapDeltaPotential      = 0;
-    mInitFlag                  = false;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp b/gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp
index 2c2a20c..a49dbeb 100644
--- a/gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp
+++ b/gunns-ts-models/aspects/signal/effectors/thermostat/HtrControl.cpp
@@ -137,6 +137,9 @@ void HtrControl::initialize(const HtrControlConfigData& config __attribute__((un
     mMalfCmdOnFlag  = input.iMalfCmdOnFlag;
     mMalfCmdOffFlag = input.iMalfCmdOffFlag;
     mIsKillSwitchEngaged = input.iIsKillSwitchEngaged;
+
+    /// - Set the initialization complete flag.
+    mInitialized = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp b/gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp
index 2ed9cda..e6fac98 100644
--- a/gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp
+++ b/gunns-ts-models/common/sensors/TsLimitSwitchAnalog.cpp
@@ -98,6 +98,9 @@ void TsLimitSwitchAnalog::initialize(
 
     TsLimitSwitch::initialize(configData, inputData);
 
+    /// - Reset init flag.
+    mInitialized = false;
+
     if(configData.mTolerance < static_cast<double>(FLT_EPSILON)) {
         hsSendMsg(TS_HS_FATAL, "SENSORS",
                 "TsLimitSwitchAnalog - initialization error: tolerance too small" );
@@ -108,6 +111,8 @@ void TsLimitSwitchAnalog::initialize(
     mTolerance = configData.mTolerance;
     mTargetValue = configData.mTargetValue;
 
+    /// - Set init flag on successful initialization.
+    mInitialized = true;
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////
diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 5139e0a..0b9afed 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -262,6 +262,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     mN = n;
     mI = 0;
     mJ = 0;
+
+    /// - Set the initialization complete flag.
+    mInitFlag = true;
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 08b6870ff052acfefe9fa8e8c373423ff43c38ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 06/16] fix: SutherlandFit singularity check used b - maxX
 where the denominator is b + x

---
 ms-utils/math/approximation/SutherlandFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/SutherlandFit.cpp b/ms-utils/math/approximation/SutherlandFit.cpp
index 6c880f3..e85db61 100644
--- a/ms-utils/math/approximation/SutherlandFit.cpp
+++ b/ms-utils/math/approximation/SutherlandFit.cpp
@@ -76,7 +76,7 @@ void SutherlandFit::init(const double a,    const double b,
     mInitFlag = false;
 
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
-    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b - mMaxX), TsInitializationException,
+    TS_GENERIC_IF_ERREX((b + mMinX < DBL_EPSILON && -DBL_EPSILON < b + mMaxX), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From c615915dc75c27accaa2c4b7d2a9963df824c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 07/16] fix: QuadraticRootFit::init validated leftover
 coefficients instead of its arguments

---
 ms-utils/math/approximation/QuadraticRootFit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/QuadraticRootFit.cpp b/ms-utils/math/approximation/QuadraticRootFit.cpp
index 8a74279..0c7c5eb 100644
--- a/ms-utils/math/approximation/QuadraticRootFit.cpp
+++ b/ms-utils/math/approximation/QuadraticRootFit.cpp
@@ -87,7 +87,7 @@ void QuadraticRootFit::init(const double a,    const double b,
     /// - Throw a TsInitializationException exception on a singularity (divide by 0) in the allegedly valid range.
     TS_GENERIC_IF_ERREX((std::fabs(b) < DBL_EPSILON), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
-    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -mB / mC && -mB / mC < maxX - flt_epsilon), TsInitializationException,
+    TS_GENERIC_IF_ERREX((minX + flt_epsilon < -(a * a) / (4.0 * b) && -(a * a) / (4.0 * b) < maxX - flt_epsilon), TsInitializationException,
                         "Invalid Input Argument", "Singularity (divide by 0) in the allegedly valid range.");
 
     /// - Initialize the coefficients with validated values.
-- 
2.43.0


From 3c08e3e708b61de26e938415f72a6c50be925802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 08/16] fix: PV regulators keep a pending admittance update
 request and notice off-diagonal changes

---
 aspects/electrical/SolarArray/GunnsElectPvRegConv.hh |  2 +-
 .../electrical/SolarArray/GunnsElectPvRegShunt.cpp   | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
index 974a719..5f901f0 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegConv.hh
@@ -356,7 +356,7 @@ inline void GunnsElectPvRegConv::updateRegulatedVoltage()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 inline void GunnsElectPvRegConv::buildAdmittanceMatrix()
 {
-    mAdmittanceUpdate    = mStateAdmittance[mState] != mAdmittanceMatrix[0];
+    mAdmittanceUpdate    = mAdmittanceUpdate or (mStateAdmittance[mState] != mAdmittanceMatrix[0]);
     mAdmittanceMatrix[0] = mStateAdmittance[mState];
 }
 
diff --git a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
index f5b5e7d..f96caee 100644
--- a/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
+++ b/aspects/electrical/SolarArray/GunnsElectPvRegShunt.cpp
@@ -504,7 +504,9 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
 {
     switch (mState) {
         case REG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] != mInputConductance) or
+                                (mAdmittanceMatrix[1] != 0.0) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
@@ -512,7 +514,9 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] = mOutputConductance;
         } break;
         case SAG: {
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mOutputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] !=  mOutputConductance) or
+                                (mAdmittanceMatrix[1] != -mOutputConductance) or
                                 (mAdmittanceMatrix[3] != mOutputConductance);
             mAdmittanceMatrix[0] =  mOutputConductance;
             mAdmittanceMatrix[1] = -mOutputConductance;
@@ -520,7 +524,9 @@ void GunnsElectPvRegShunt::buildAdmittanceMatrix()
             mAdmittanceMatrix[3] =  mOutputConductance;
         } break;
         default: {  // OFF or invalid
-            mAdmittanceUpdate = (mAdmittanceMatrix[0] != mInputConductance) or
+            mAdmittanceUpdate = mAdmittanceUpdate or
+                                (mAdmittanceMatrix[0] != mInputConductance) or
+                                (mAdmittanceMatrix[1] != 0.0) or
                                 (mAdmittanceMatrix[3] != 0.0);
             mAdmittanceMatrix[0] = mInputConductance;
             mAdmittanceMatrix[1] = 0.0;
-- 
2.43.0


From a5e2e2f784314da2d84aacc95630435c578afb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 09/16] fix: never solve with an admittance matrix that was
 rebuilt but not decomposed

---
 core/Gunns.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/Gunns.cpp b/core/Gunns.cpp
index a72e0c6..fe0f614 100755
--- a/core/Gunns.cpp
+++ b/core/Gunns.cpp
@@ -796,7 +796,6 @@ void Gunns::step(const double timeStep)
     ///   future.
     saveMajorPotentialVector();
 
-    mRebuild = false;
     mStepLog.endMajorStep();
 
     mSolveTime = mSolveTimeWorking;
@@ -966,7 +965,8 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
         buildAdmittanceMatrix();
         conditionAdmittanceMatrix();
         needDecomposition = true;
-        mRebuild = false;
+        /// - This matrix can't be re-used until it has been decomposed, which resets this flag.
+        mRebuild = true;
     }
     mStepLog.recordLinkContributions();
 
@@ -1036,6 +1036,7 @@ int Gunns::buildAndSolveSystem(const int minorStep, const double timeStep)
                     } else {
                         decompose(mAdmittanceMatrix, mNetworkSize);
                     }
+                    mRebuild = false;
                 } else {
                     throw TsOutOfBoundsException("Iteration Limit Exceeded", "Gunns",
                                                  "decomposition limit exceeded.");
-- 
2.43.0


From 15937d6f8b54872224db5b5ffe3f82350d0ba719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 10/16] fix: user load switches kept the loads override
 admittance to ground after the mode ended with the switch open

---
 aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp  | 6 ++++++
 aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
index cd1e99f..70da892 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch.cpp
@@ -276,6 +276,12 @@ void GunnsElectUserLoadSwitch::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove the load short that was left on port 1 by the loads override mode.  The base class
+        ///   only looks at the first element, which is zero in both modes when the switch is open.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
diff --git a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
index 7718a46..b01f0ea 100755
--- a/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
+++ b/aspects/electrical/Switch/GunnsElectUserLoadSwitch2.cpp
@@ -311,6 +311,12 @@ void GunnsElectUserLoadSwitch2::buildConductance()
             mAdmittanceUpdate = true;
         }
     } else {
+        /// - Remove the load short that was left on port 1 by the loads override mode.  The base class
+        ///   only looks at the first element, which is zero in both modes when the switch is open.
+        if (mAdmittanceMatrix[3] != mAdmittanceMatrix[0]) {
+            mAdmittanceMatrix[3] = mAdmittanceMatrix[0];
+            mAdmittanceUpdate = true;
+        }
         GunnsBasicConductor::buildConductance();
     }
     buildSource();
-- 
2.43.0


From 408d51165afc38abafb1c13d690d9ad2808ad9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 11/16] fix: constant power loads and switches moved flux into
 the nodes in every minor step instead of once per step

---
 .../electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp | 8 ++++++--
 aspects/electrical/Switch/SwitchElect.cpp                 | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
index 11aa032..95008a2 100644
--- a/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
+++ b/aspects/electrical/ConstantPowerLoad/EpsConstantPowerLoad.cpp
@@ -194,11 +194,15 @@ void EpsConstantPowerLoad::updateState(const double dt __attribute__((unused)))
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 /// @param[in] dt        (s)  Link time step
 ///
-/// @details  Updates the link during the minor time step
+/// @details  Updates the link during the minor time step.  The flux is not transported to the nodes
+///           here, the network does that once in computeFlows after it has solved.
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void EpsConstantPowerLoad::minorStep(const double dt, const int)
 {
-    computeFlows(dt);
+    mPotentialDrop = getDeltaPotential();
+    computeFlux();
+    updateFlux(dt, mFlux);
+    computePower();
     step(dt);
 }
 
diff --git a/aspects/electrical/Switch/SwitchElect.cpp b/aspects/electrical/Switch/SwitchElect.cpp
index 46526ab..4241771 100755
--- a/aspects/electrical/Switch/SwitchElect.cpp
+++ b/aspects/electrical/Switch/SwitchElect.cpp
@@ -168,6 +168,7 @@ void SwitchElect::updateState(const double timeStep __attribute__((unused))) {
 /////////////////////////////////////////////////////////////////////////////////////////////////
 void SwitchElect::computeFlows(const double timeStep) {
     mTimeStep = timeStep;
+    GunnsBasicConductor::computeFlows(timeStep);
 }
 
 ////////////////////////////////////////////////////////////////////////////////////////////////
@@ -186,7 +187,6 @@ GunnsBasicLink::SolutionResult SwitchElect::confirmSolutionAcceptable(
       computeFlux();
       updateFlux(mTimeStep, mFlux); // nothing really done here. Kept the same gunnsBasicConductor
       computePower();
-      transportFlux();
 
       mVoltage = mPotentialVector[0];
       mCurrent = mFlux;
-- 
2.43.0


From 58d1c8f0a77550e3d1ac2175f0f87f775ede76b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 12/16] fix: GunnsBasicLink releases its default node map when
 initialized again

---
 core/GunnsBasicLink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/GunnsBasicLink.cpp b/core/GunnsBasicLink.cpp
index b83f21b..ede87f4 100755
--- a/core/GunnsBasicLink.cpp
+++ b/core/GunnsBasicLink.cpp
@@ -324,6 +324,7 @@ void GunnsBasicLink::registerNodes(const int* portMap, const std::string& source
 void GunnsBasicLink::allocateMatrixAndVectors(const std::string& name)
 {
     /// - Allocate link arrays based on the number of ports the link has.
+    delete [] mDefaultNodeMap;
     mDefaultNodeMap = new int[mNumPorts];
     TS_NEW_PRIM_POINTER_ARRAY_EXT(mNodes,            mNumPorts,           GunnsBasicNode,                 name + ".mNodes");
     TS_NEW_PRIM_ARRAY_EXT        (mNodeMap,          mNumPorts,           int,                            name + ".mNodeMap");
-- 
2.43.0


From c4933821bd4572e97da99d851bf10f9bfbccdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 13/16] fix: flow orchestrators release their arrays when
 initialized again

---
 core/GunnsBasicFlowOrchestrator.cpp | 1 +
 core/GunnsFluidFlowOrchestrator.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/core/GunnsBasicFlowOrchestrator.cpp b/core/GunnsBasicFlowOrchestrator.cpp
index 97e4b6f..a08c528 100755
--- a/core/GunnsBasicFlowOrchestrator.cpp
+++ b/core/GunnsBasicFlowOrchestrator.cpp
@@ -75,6 +75,7 @@ void GunnsBasicFlowOrchestrator::initialize(const std::string& name, GunnsBasicL
     validate();
 
     /// - Initialize the link port directions array.
+    delete [] mLinkPortDirections;
     mLinkPortDirections = new GunnsBasicLink::PortDirection*[mNumLinks];
     for (int link = 0; link < mNumLinks; ++link) {
         mLinkPortDirections[link] = mLinks[link]->getPortDirections();
diff --git a/core/GunnsFluidFlowOrchestrator.cpp b/core/GunnsFluidFlowOrchestrator.cpp
index 2095f6e..86aaaac 100755
--- a/core/GunnsFluidFlowOrchestrator.cpp
+++ b/core/GunnsFluidFlowOrchestrator.cpp
@@ -65,10 +65,12 @@ void GunnsFluidFlowOrchestrator::initialize(const std::string& name, GunnsBasicL
     mInitFlag = false;
 
     /// - Allocate arrays and initialize state.
+    delete [] mLinkStates;
     mLinkStates = new bool[mNumLinks];
     for (int i=0; i<mNumLinks; ++i) {
         mLinkStates[i] = false;
     }
+    delete [] mNodeStates;
     mNodeStates = new NodeStates[mNumNodes];
     for (int i=0; i<mNumNodes; ++i) {
         mNodeStates[i] = INCOMPLETE;
-- 
2.43.0


From 9e96fb874a38098becf988339ff899d19a8baee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 14/16] fix: GunnsFluidSorptionBed releases its work arrays
 when initialized again

---
 aspects/fluid/source/GunnsFluidSorptionBed.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aspects/fluid/source/GunnsFluidSorptionBed.cpp b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
index 2b9ee6f..cadc19a 100644
--- a/aspects/fluid/source/GunnsFluidSorptionBed.cpp
+++ b/aspects/fluid/source/GunnsFluidSorptionBed.cpp
@@ -821,6 +821,8 @@ void GunnsFluidSorptionBed::initialize(const GunnsFluidSorptionBedConfigData& co
     const int nFluids = mNodes[0]->getFluidConfig()->mNTypes;
     TS_NEW_PRIM_ARRAY_EXT(mAdsorptionFluidRates, nFluids, double, mName + ".mAdsorptionFluidRates");
     TS_NEW_PRIM_ARRAY_EXT(mAdsorbedFluidMasses,  nFluids, double, mName + ".mAdsorbedFluidMasses");
+    delete [] mWorkFluidMasses;
+    delete [] mWorkFluidRates;
     mWorkFluidRates  = new double[nFluids];
     mWorkFluidMasses = new double[nFluids];
 
@@ -830,6 +832,8 @@ void GunnsFluidSorptionBed::initialize(const GunnsFluidSorptionBedConfigData& co
         if (nTc > 0) {
             TS_NEW_PRIM_ARRAY_EXT(mAdsorptionTcRates, nTc, double, mName + ".mAdsorptionTcRates");
             TS_NEW_PRIM_ARRAY_EXT(mAdsorbedTcMasses,  nTc, double, mName + ".mAdsorbedTcMasses");
+            delete [] mWorkTcMasses;
+            delete [] mWorkTcRates;
             mWorkTcRates  = new double[nTc];
             mWorkTcMasses = new double [nTc];
         }
-- 
2.43.0


From e0665ffed26f0b2e120b60c967863a49b35ae836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:28 +0000
Subject: [PATCH 15/16] fix: GunnsOptimGradientDescent releases its state when
 initialized again

---
 core/optimization/GunnsOptimGradientDescent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/optimization/GunnsOptimGradientDescent.cpp b/core/optimization/GunnsOptimGradientDescent.cpp
index 5738697..6c3f0e6 100755
--- a/core/optimization/GunnsOptimGradientDescent.cpp
+++ b/core/optimization/GunnsOptimGradientDescent.cpp
@@ -158,6 +158,7 @@ void GunnsOptimGradientDescent::initialize(const std::vector<GunnsOptimMonteCarl
     }
 
     /// - Create the global state object.
+    delete mState;
     mState = new GunnsOptimGradientDescentState(mInStatesMaster->size());
 
     /// - Point the active MC state to the first gradient object.
-- 
2.43.0


From 572930f6f24a1f6588fd014735c46768743f516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:51 +0000
Subject: [PATCH 16/16] fix: TsBilinearInterpolator survives a failed init and
 releases its previous arrays

---
 ms-utils/math/approximation/TsBilinearInterpolator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ms-utils/math/approximation/TsBilinearInterpolator.cpp b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
index 0b9afed..d7840f2 100644
--- a/ms-utils/math/approximation/TsBilinearInterpolator.cpp
+++ b/ms-utils/math/approximation/TsBilinearInterpolator.cpp
@@ -85,7 +85,7 @@ TsBilinearInterpolator::~TsBilinearInterpolator()
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 void TsBilinearInterpolator::cleanup()
 {
-    for (int i = 0; i < mM; ++i) {
+    for (int i = 0; mZ and i < mM; ++i) {
         delete [] mZ[i];
         mZ[i] = 0;
     } {
@@ -129,6 +129,9 @@ void TsBilinearInterpolator::init(const double* x,    const double* y, const dou
     /// - Reset the initialization complete flag.
     mInitFlag = false;
 
+    /// - Release the arrays of a previous initialization while their size is still known.
+    cleanup();
+
     mM = m;
     mN = n;
 
-- 
2.43.0

