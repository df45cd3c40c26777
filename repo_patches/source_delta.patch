From 5f521f343a00296dc4bae552fb01a6f6dd5328ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 01/32] fix: return a value from Weight::_LoadBasis

Flowing off the end of a non-void function is undefined; with an optimising
compiler every worker crashes as soon as it loads its basis files.
---
 src/module/weight/weight.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index 1445851..f3a85b2 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -198,5 +198,6 @@ bool weight::Weight::_LoadBasis(real Beta)
     _Number=_Basis.Get<real>("Number");
     _basis=_Basis.Get<vector<basis>>("Basis");
     _BoseBasis.swap(_basis);
+    return true;
 }
 
-- 
2.43.0


From 72b6f563897405b21540857ce33cd661637c9d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:56 +0000
Subject: [PATCH 02/32] fix: return false from ListenToMessage when the poll is
 skipped

In the Gamma3 calculation a poll made while a Gamma line is present fell off
the end of the non-void function (undefined behaviour).
---
 src/environment/envMonteCarlo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 9f29913..1b164f4 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -202,4 +202,5 @@ bool EnvMonteCarlo::ListenToMessage()
 
         return true;
     }
+    return false;
 }
-- 
2.43.0


From 7d228abcae2fced311c63d74e2855c98d41dfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 03/32] fix: do not jump to order 0 from a diagram with an
 instantaneous W

JumpBackToOrder1 draws two independent times.  If the remaining W line was
instantaneous the restored order-1 diagram had an instantaneous W between
different times: an inconsistent diagram (the worker aborts at its next
self check) sampled with the wrong weight.
---
 src/module/markov/markov.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/module/markov/markov.cpp b/src/module/markov/markov.cpp
index 53faf3c..d822e70 100644
--- a/src/module/markov/markov.cpp
+++ b/src/module/markov/markov.cpp
@@ -1585,6 +1585,9 @@ void Markov::JumpToOrder0()
     vertex Ver2 = &Diag->Ver[1];
     if (Ver1->R != Ver2->R)
         return;
+    //JumpBackToOrder1 draws two independent taus, so it can only be balanced with a continuous W
+    if (Ver1->NeighW()->IsDelta)
+        return;
 
     Complex weightRatio;
     weightRatio = weight::Norm::Weight() / Diag->Weight;
-- 
2.43.0


From 666922b87236e1413497a21c7ca61a660aad37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 04/32] fix: IO.SaveDict replaces the file atomically

---
 IO.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index 0c3f708..6ea0862 100755
--- a/IO.py
+++ b/IO.py
@@ -11,8 +11,16 @@ set_printoptions(threshold=nan) #make sure numpy will print all elements, so tha
 def SaveDict(filename, mode, root):
     if filename[-4:]!=".txt":
         filename+=".txt"
-    with open(filename, mode) as f:
+    if mode!="w":
+        with open(filename, mode) as f:
+            f.write(pprint.pformat(root))
+        return
+    #write to a temporary file first, so that a reader (or a restarted job) never sees a partly written file
+    dirname, basename=os.path.split(filename)
+    temp=os.path.join(dirname, "_"+basename)
+    with open(temp, mode) as f:
         f.write(pprint.pformat(root))
+    os.rename(temp, filename)
 
 def LoadDict(filename):
     if filename[-4:]!=".txt":
-- 
2.43.0


From 3c1737154270c36ba30df661267b9544e3919a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 05/32] fix: PrintOrderReWeight must not change the worm
 reweighting factor

---
 src/module/markov/markov_monitor.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index b78d2ba..e6a0ce9 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -126,7 +126,6 @@ void MarkovMonitor::PrintOrderReWeight()
         output << "Order0 :" << weight[0] << " Order" << i << " :" << weight[i] << endl;
     }
 
-    Para->WormSpaceReweight = phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight <<  endl;
     LOG_INFO(output.str());
 
-- 
2.43.0


From 45fedaaae78d03cd399cf2902d04f574ac5020a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 06/32] fix: AdjustOrderReWeight changes nothing when it gives
 up

---
 src/module/markov/markov_monitor.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/module/markov/markov_monitor.cpp b/src/module/markov/markov_monitor.cpp
index e6a0ce9..bb43f77 100644
--- a/src/module/markov/markov_monitor.cpp
+++ b/src/module/markov/markov_monitor.cpp
@@ -170,11 +170,15 @@ bool MarkovMonitor::AdjustOrderReWeight()
     real wormweight = 0.0, phyweight = 0.0;
     weight[0] = WormEstimator[0].Value() + PhyEstimator[0].Value();
 
+    for (int i = 1; i <= Para->Order; i++)
+        wormweight += WormEstimator[i].Value();
+    if (Zero(wormweight))
+        return false;
+
     LOG_INFO("Number of confs in different Order => Reweight Ratio:");
     stringstream output;
     for (int i = 1; i <= Para->Order; i++) {
         weight[i] = WormEstimator[i].Value() + PhyEstimator[i].Value();
-        wormweight += WormEstimator[i].Value();
         phyweight += PhyEstimator[i].Value();
         if (Zero(weight[i]))
             continue;
@@ -183,9 +187,6 @@ bool MarkovMonitor::AdjustOrderReWeight()
     }
     Para->OrderReWeight[0] = 1.0;
 
-    if (Zero(wormweight))
-        return false;
-
     Para->WormSpaceReweight *= phyweight / wormweight;
     output << "Worm confs:" << wormweight << " Physics confs: " << phyweight << " => " << Para->WormSpaceReweight << endl;
     LOG_INFO(output.str());
-- 
2.43.0


From ff02ca634bcdc98806d074972cc624d77fe47749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 07/32] fix: a failed Dyson version rolls back exactly its own
 merges

---
 dyson/main.py   |  3 +--
 dyson/weight.py | 20 ++++++--------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index dc2f41b..98a06a4 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -302,11 +302,10 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
 
         except collect.CollectStatisFailure as err:
             #failure due to statis files collection
+            #Sigma and Polar have not been merged yet in this version
             log.info(green("Version {0} fails due to:\n{1}".format(para["Version"],err)))
             G, W = Gold, Wold
             SigmaDeltaT.RollBack()
-            Sigma.RollBack()
-            Polar.RollBack()
         except KeyboardInterrupt, SystemExit:
             #exit
             log.info("Terminating Dyson\n {1}".format(para["Version"], traceback.format_exc()))
diff --git a/dyson/weight.py b/dyson/weight.py
index 474fbcb..7437c8d 100644
--- a/dyson/weight.py
+++ b/dyson/weight.py
@@ -180,29 +180,21 @@ class Weight():
             self.AccuData=np.zeros(self.Shape,dtype=complex)
         if not hasattr(self, "Norm"):
             self.Norm=0.0
+        self.BackUp=(self.Data.copy(), self.AccuData.copy(), self.Norm, self.SpaceDomain, self.TimeDomain)
         if ratio is not None:
             self.AccuData+=ratio*newWeight.Data
             self.Norm+=ratio
-        self.BackUpRatio=ratio
-        self.BackUpWeight=newWeight
         if self.Norm>1.0e-3:
             self.Data = self.AccuData/self.Norm
         else:
             self.Data=newWeight.Data
     def RollBack(self):
-        if not hasattr(self, "BackUpRatio"):
+        """undo the last calling of Merge"""
+        if getattr(self, "BackUp", None) is None:
             return
-        if self.BackUpRatio is None:
-            #None means no update in the last calling of Merge
-            return 
-        self.BackUpWeight.FFT(self.SpaceDomain, self.TimeDomain)
-        self.Norm-=self.BackUpRatio
-        self.AccuData-=self.BackUpRatio*self.BackUpWeight.Data
-        if self.Norm>1.0e-3:
-            self.Data = self.AccuData/self.Norm
-        else:
-            self.Data=self.BackUpWeight.Data
-    
+        self.Data, self.AccuData, self.Norm, self.SpaceDomain, self.TimeDomain=self.BackUp
+        self.BackUp=None
+
     def FFT(self, *SpaceOrTime):
         if "R" in SpaceOrTime and self.SpaceDomain is "K":
             self.__fftSpace(-1)
-- 
2.43.0


From d2927bff8f6571300049014beec7d2bc42484087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:57 +0000
Subject: [PATCH 08/32] fix: announce a version only after its weights and
 parameters are saved

---
 dyson/main.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 98a06a4..d30011e 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -98,6 +98,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
 
     Observable.Measure(Chi, BKChi, Determ, G, Factory.NearestNeighbor)
 
+    IsSaved=False
     with DelayedInterrupt():
         try:
             log.info("Save weights into {0} File".format(WeightFile))
@@ -105,6 +106,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             IO.SaveBigDict(WeightFile, data)
 
             parameter.Save(ParaFile, para)  #Save Parameters
+            IsSaved=True
             Observable.Save(OutputFile)
 
             #plot what you are interested in
@@ -120,6 +122,7 @@ def Measure(para, Observable,Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, D
             plot.PlotBand(G0, Lat)
         except:
             log.warning(blue("Output fails due to\n {0}".format(traceback.format_exc())))
+    return IsSaved
 
 def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
     ParaDyson=para["Dyson"]
@@ -319,16 +322,19 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
 	    log.info("everything is going well!")
             Gold, Wold = G, W
             if para["Gamma3"]:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor, GGGammaG, WWGammaW)
             else:
-                Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
+                IsSaved=Measure(para, Observable, Factory, G0, W0, G, W, SigmaDeltaT, Sigma, Polar, Determ, ChiTensor)
             IsSuccessed=Factory.DecreaseField(ParaDyson["Annealing"])
             # Factor=2.0 if IsSuccessed else 1.0
             # Factor=2.0
             Factor = 1.0 + 3.0/(1.0*para["Version"]+1.0)
-            parameter.BroadcastMessage(MessageFile, 
-                    {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
-            log.info("Version {0} is done!".format(para["Version"]))
+            if IsSaved:
+                parameter.BroadcastMessage(MessageFile, 
+                        {"Version": para["Version"], "Beta": Map.Beta, "SqueezeFactor": Factor})
+                log.info("Version {0} is done!".format(para["Version"]))
+            else:
+                log.warning(red("Version {0} is not announced because it has not been saved!".format(para["Version"])))
         finally:
             log.info(green("Memory Usage before collecting: {0} MB".format(memory_usage())))
             gc.collect()
-- 
2.43.0


From 4b5a716afc48197660591d6ff7b0c1d194eb856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 09/32] fix: a statistics file that can not be merged
 completely is not merged at all

---
 dyson/collect.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 337cf84..c541bb0 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -30,16 +30,26 @@ class WeightEstimator():
 
     def MergeFromDict(self, WeightDict):
         """add data from another WeightEstimator, work even if order WeightDict is smaller than MaxOrder"""
+        self.CheckDict(WeightDict)
         datamat=WeightDict[self.__Weight.Name]
         if hasattr(self, "Norm"):
             self.WeightAccu+=datamat['WeightAccu']
             self.NormAccu+=datamat['NormAccu']
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
         else:
             self.Norm=datamat['Norm']
             self.NormAccu=datamat['NormAccu']
             self.WeightAccu=datamat['WeightAccu']
 
+    def CheckDict(self, WeightDict):
+        """raise an exception if the data can not be merged, without changing anything"""
+        datamat=WeightDict[self.__Weight.Name]
+        Shape=datamat['WeightAccu'].shape
+        self.__AssertShape(Shape[1:], self.__Weight.Shape)
+        Assert(np.isfinite(datamat['NormAccu']), "NormAccu has to be a number")
+        if hasattr(self, "Norm"):
+            self.__AssertShape(Shape, self.WeightAccu.shape)
+            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
+
     def UpdateWeight(self, Name, ErrorThreshold, OrderAccepted, DoesSaveFigure=True):
         """ Weight accumulation data will be destroyed here to save memory!!!"""
         if abs(self.NormAccu)<1e-3:
@@ -177,6 +187,14 @@ def CollectStatis(_map, runGamma3=False):
         try:
             log.info("Merging {0} ...".format(f));
             Dict=IO.LoadBigDict(f)
+            #make sure the file can be used completely before any part of it is merged
+            SigmaSmoothT.CheckDict(Dict['Sigma']['Histogram'])
+            PolarSmoothT.CheckDict(Dict['Polar']['Histogram'])
+            if runGamma3:
+                for key, norm in (("GammaGStatis", GammaGNorm), ("GammaWStatis", GammaWNorm)):
+                    Dict[key]['WeightAccu'], Dict[key]['NormAccu']
+                    Assert(norm is None or norm==Dict[key]['Norm'], "Norm have to be the same to merge statistics")
+
             SigmaSmoothT.MergeFromDict(Dict['Sigma']['Histogram'])
             PolarSmoothT.MergeFromDict(Dict['Polar']['Histogram'])
 
-- 
2.43.0


From a1930caba6ca8cafac9ce5da4ab9df61d25da4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 10/32] fix: collecting statistics with an order that is not
 sampled yet

---
 dyson/collect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index c541bb0..7ea363a 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -65,7 +65,7 @@ class WeightEstimator():
         DimList=[]
         for order in xrange(1,Shape[0]+1):
             # Order Index is equal to real Order-1
-            #RelativeError=0.0
+            RelativeError=float("inf") #nothing is sampled in this order yet
             Average=0.0
             weight=self.OrderWeight[order-1,...]
             for index, _ in np.ndenumerate(weight[...,0]):
@@ -91,7 +91,8 @@ class WeightEstimator():
             State="Accepted with relative error {0:.2g}".format(RelativeError, ErrorThreshold)
             if not IsAccpted:
                 State="NOT "+State
-            Info.append([Name, x, Original, Smoothed, error, Position, State])
+            if Average>0.0:
+                Info.append([Name, x, Original, Smoothed, error, Position, State])
             log.info("{0},Threshold {1}".format(State, ErrorThreshold))
             if not IsAccpted:
                 order-=1
-- 
2.43.0


From 43a1f69df0beac8a1f7bad068f8e3aa3aad0a60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 11/32] fix: GammaW statistics keep their type through
 SaveBigDict and LoadBigDict

---
 IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index 6ea0862..cfdcadd 100755
--- a/IO.py
+++ b/IO.py
@@ -32,7 +32,9 @@ def SaveBigDict(filename, root):
     if filename[-4:]!=".hkl":
         filename+=".hkl"
     if "GammaWStatis" in root.keys():
-        gammaw=root["GammaWStatis"]
+        #do not change the dict of the caller
+        root=dict(root)
+        gammaw=root["GammaWStatis"]=dict(root["GammaWStatis"])
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
     hkl.dump(root, "_"+filename, mode='w', compression='gzip')
     os.rename("_"+filename, filename)
@@ -45,4 +47,7 @@ def LoadBigDict(filename):
         gammaw=data["WWGammaW"]
         if "SmoothT" in gammaw.keys():
             gammaw["SmoothT"]=array(gammaw["SmoothT"], dtype=complex)
+    if "GammaWStatis" in data.keys():
+        gammaw=data["GammaWStatis"]
+        gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex)
     return data
-- 
2.43.0


From b05e6ceddc130d09c31363006f89f4a8ab302471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 12/32] fix: get_current_PID ignores files that do not belong
 to a numbered job

---
 job_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 9a7520c..00540c2 100644
--- a/job_class.py
+++ b/job_class.py
@@ -4,7 +4,8 @@ import sys, os, random, re, copy
 
 def get_current_PID(KeyWord):
     workspace=os.path.abspath(".")
-    filelist=sorted([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e[0] is not '_'])
+    #only files of a numbered job count, each job once
+    filelist=sorted(set([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e.split('_')[0].isdigit()]))
     if len(filelist)==0:
         NextPID=0
     else:
-- 
2.43.0


From d3ae787cd4e4e943a88b86eeff6ee5efb69d63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 13/32] fix: after a stop request the job manager starts no
 further job

---
 job_manager.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/job_manager.py b/job_manager.py
index adfcebd..9a5b9d9 100755
--- a/job_manager.py
+++ b/job_manager.py
@@ -5,6 +5,7 @@ import os, sys, copy, signal
 import time
 import subprocess
 import logging
+import traceback
 import IO
 import inlist
 
@@ -68,7 +69,7 @@ def check_status():
     PROC=(PROCLIST, PROCLIST_BACK)
     #print PROC
     for plist in PROC:
-        for elemp in plist:
+        for elemp in plist[:]:
             if elemp[0].poll() is not None:
                 plist.remove(elemp)
                 logging.info(elemp[1].get_job_name()+" is ended!")
@@ -131,8 +132,15 @@ def Exit():
     print("Jobs manage daemon is ended")
     sys.exit(0)
 
+STOPPED = False
+
 def StopTheWorld(signum, frame):
-    """Stop the sub-process *child* if *signum* is SIGTERM. Then terminate."""
+    """Ask the daemon to stop: no more job will be submitted."""
+    global STOPPED
+    STOPPED = True
+
+def terminate_all():
+    """Terminate all the sub-processes and wait for them."""
     check_status()
     ##terminate all background process here
     try:
@@ -153,15 +161,21 @@ if __name__ == "__main__":
         signal.signal(signal.SIGINT, StopTheWorld)
         signal.signal(signal.SIGTERM, StopTheWorld)
         for ATOM in JOBQUEUE_BACK:
+            if STOPPED:
+                break
             submit_job(ATOM)
         for ATOM in JOBQUEUE:
-            while ATOM.is_cluster is False and len(PROCLIST)>=inlist.CPU:
+            while not STOPPED and ATOM.is_cluster is False and len(PROCLIST)>=inlist.CPU:
                 check_status()
                 time.sleep(inlist.SLEEP)
+            if STOPPED:
+                break
             submit_job(ATOM)
-        while len(PROCLIST+PROCLIST_BACK) != 0:
+        while not STOPPED and len(PROCLIST+PROCLIST_BACK) != 0:
             check_status()
             time.sleep(inlist.SLEEP)
+        if STOPPED:
+            terminate_all()
     except:
         traceback.print_exc()
     finally:
-- 
2.43.0


From 5f7124f04c1984d6919f21a2a22b9d591a48ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 14/32] fix: initialize GammaG and GammaW of weight::Weight

---
 src/module/weight/weight.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module/weight/weight.cpp b/src/module/weight/weight.cpp
index f3a85b2..b2d5460 100644
--- a/src/module/weight/weight.cpp
+++ b/src/module/weight/weight.cpp
@@ -22,6 +22,8 @@ weight::Weight::Weight(bool IsAllSymmetric)
     Polar = nullptr;
     G = nullptr;
     W = nullptr;
+    GammaG = nullptr;
+    GammaW = nullptr;
 }
 
 weight::Weight::~Weight()
@@ -30,6 +32,8 @@ weight::Weight::~Weight()
     delete Polar;
     delete G;
     delete W;
+    delete GammaG;
+    delete GammaW;
 }
 /**
 *  Build G, W, Sigma, Polar from file, you may use flag weight::GW and weight::SigmaPolar to control which group to load. Notice those in unflaged group will remain the same.
-- 
2.43.0


From a2402476b5c5b94c44b127a2893a7dd721138e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:52 +0000
Subject: [PATCH 15/32] fix: dyson/main.py --collect saves the statistics it
 collected

---
 IO.py         | 6 ++++--
 dyson/main.py | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/IO.py b/IO.py
index cfdcadd..c43680d 100755
--- a/IO.py
+++ b/IO.py
@@ -36,8 +36,10 @@ def SaveBigDict(filename, root):
         root=dict(root)
         gammaw=root["GammaWStatis"]=dict(root["GammaWStatis"])
         gammaw["WeightAccu"]=array(gammaw["WeightAccu"], dtype=complex64)
-    hkl.dump(root, "_"+filename, mode='w', compression='gzip')
-    os.rename("_"+filename, filename)
+    dirname, basename=os.path.split(filename)
+    temp=os.path.join(dirname, "_"+basename)
+    hkl.dump(root, temp, mode='w', compression='gzip')
+    os.rename(temp, filename)
 
 def LoadBigDict(filename):
     if filename[-4:]!=".hkl":
diff --git a/dyson/main.py b/dyson/main.py
index d30011e..7a3ef9a 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -388,13 +388,14 @@ if __name__=="__main__":
 
     if args.collect:
         log.info("Collect statistics only...")
-        SigmaMC, PolarMC=collect.CollectStatis(Map)
-        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
+        SigmaMC, PolarMC, _, _=collect.CollectStatis(Map)
         data ={}
         data["Sigma"] = {"Histogram": SigmaMC.ToDict()}
         data["Polar"] = {"Histogram": PolarMC.ToDict()}
         with DelayedInterrupt():
             IO.SaveBigDict(StatisFile, data)
+        #the accumulated data will be destroyed here
+        collect.UpdateWeight((SigmaMC, PolarMC), para["Dyson"]["ErrorThreshold"], para["Dyson"]["OrderAccepted"])
         sys.exit(0)
     else:
         Dyson(job["DysonOnly"],  IsNewCalculation, job["SumRule"], para, Map, Lat)
-- 
2.43.0


From 2f8ce528d2febc5bbd88fb0396e04a05b8710b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:51 +0000
Subject: [PATCH 16/32] fix: FixDiagram ignores the ends of a worm that does
 not exist

---
 src/module/diagram/diagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram.cpp b/src/module/diagram/diagram.cpp
index ad15532..8568941 100644
--- a/src/module/diagram/diagram.cpp
+++ b/src/module/diagram/diagram.cpp
@@ -146,7 +146,7 @@ bool Diagram::FixDiagram()
         vertex vin = w->NeighVer(IN);
         vertex vout = w->NeighVer(OUT);
 
-        w->IsWorm = (vin==Worm.Ira || vin==Worm.Masha || vout==Worm.Ira ||vout==Worm.Masha);
+        w->IsWorm = IsWorm(vin) || IsWorm(vout);
 
         vin->nW = w;
         vin->Dir = IN;
-- 
2.43.0


From e50b0d48718890814cc6b3ef3920850cf4e12ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 17/32] fix: LoadDict reports a damaged file as an IOError

---
 IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/IO.py b/IO.py
index c43680d..7acab97 100755
--- a/IO.py
+++ b/IO.py
@@ -26,7 +26,12 @@ def LoadDict(filename):
     if filename[-4:]!=".txt":
         filename+=".txt"
     with open(filename, "r") as f:
-        return eval(f.read())
+        text=f.read()
+    try:
+        return eval(text)
+    except Exception as e:
+        #callers expect an IOError from a file which can not be read
+        raise IOError("{0} is damaged: {1}".format(filename, e))
 
 def SaveBigDict(filename, root):
     if filename[-4:]!=".hkl":
-- 
2.43.0


From d960313f211b4780e52fd055e292c4a2c8023d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:35 +0000
Subject: [PATCH 18/32] fix: CheckDiagram compares the total weight relative to
 its size

---
 src/module/diagram/diagram_check.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module/diagram/diagram_check.cpp b/src/module/diagram/diagram_check.cpp
index 2d45d90..e554d28 100644
--- a/src/module/diagram/diagram_check.cpp
+++ b/src/module/diagram/diagram_check.cpp
@@ -176,6 +176,7 @@ bool Diagram::_CheckWeight()
                 return false;
         }
         DiagWeight *= SignFermiLoop * (Order % 2 == 0 ? 1 : -1);
-        return Equal(DiagWeight, Weight);
+        //rounding errors grow with the size of the weight
+        return Equal(DiagWeight, Weight, eps0 * (1.0 + mod(DiagWeight)));
     }
 }
-- 
2.43.0


From 713aac61863731e7442884443937806b00399381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:53 +0000
Subject: [PATCH 19/32] fix: a failed version does not roll back the merges of
 an earlier version

---
 dyson/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/main.py b/dyson/main.py
index 7a3ef9a..2944452 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -197,6 +197,8 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
     while True:
         para["Version"]+=1
         log.info(green("Start Version {0}...".format(para["Version"])))
+        for e in (SigmaDeltaT, Sigma, Polar):
+            e.BackUp=None   #only the merges of this version can be rolled back
         try:
             # ratio=None   #set this will not use accumulation!
             ratio = para["Version"]/(para["Version"]+10.0)
-- 
2.43.0


From fd6199bbe12f6d0b10600a3f067118038ae52f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 20/32] fix: a Dyson parameter file that can not be read does
 not reset the version

---
 dyson/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 2944452..87a0697 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -373,11 +373,12 @@ if __name__=="__main__":
 
     IsNewCalculation=not os.path.exists(WeightFile+".hkl")
     if not IsNewCalculation: 
-        try:
+        if os.path.exists(ParaFile+".txt"):
+            #a file which exists but can not be read must not reset the version, so let it fail
             log.info(green("Try to load previous DYSHON_para file"))
             para=parameter.LoadPara(ParaFile)
             log.info("{0} para file is loaded".format(ParaFile))
-        except:
+        else:
             log.warning(red("Previous DYSHON_para file does not exist, use _in_DYSON_ file as para instead"))
             parameter.Save(ParaFile, para)  #Save Parameters
 
-- 
2.43.0


From d36293097cd5d7f8b21a944fd98ad21c7d153843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 21/32] fix: a statistics file without Norm is rejected before
 any part of it is merged

---
 dyson/collect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 7ea363a..879c59f 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -46,9 +46,10 @@ class WeightEstimator():
         Shape=datamat['WeightAccu'].shape
         self.__AssertShape(Shape[1:], self.__Weight.Shape)
         Assert(np.isfinite(datamat['NormAccu']), "NormAccu has to be a number")
+        Norm=datamat['Norm']
         if hasattr(self, "Norm"):
             self.__AssertShape(Shape, self.WeightAccu.shape)
-            Assert(self.Norm==datamat['Norm'], "Norm have to be the same to merge statistics")
+            Assert(self.Norm==Norm, "Norm have to be the same to merge statistics")
 
     def UpdateWeight(self, Name, ErrorThreshold, OrderAccepted, DoesSaveFigure=True):
         """ Weight accumulation data will be destroyed here to save memory!!!"""
-- 
2.43.0


From d6960a07e470598b54b27d829eb1952427931146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 22/32] fix: an interrupted self-consistency loop exits at once
 instead of after SleepTime

---
 dyson/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyson/main.py b/dyson/main.py
index 87a0697..5697d8b 100755
--- a/dyson/main.py
+++ b/dyson/main.py
@@ -341,8 +341,9 @@ def Dyson(IsDysonOnly, IsNewCalculation, EnforceSumRule, para, Map, Lat):
             log.info(green("Memory Usage before collecting: {0} MB".format(memory_usage())))
             gc.collect()
             log.info(green("Memory Usage : {0} MB".format(memory_usage())))
-            if not IsDysonOnly and not IsNewCalculation:
-                time.sleep(ParaDyson["SleepTime"])
+        #outside of the finally block, an interrupted calculation must not sleep before it exits
+        if not IsDysonOnly and not IsNewCalculation:
+            time.sleep(ParaDyson["SleepTime"])
 
 if __name__=="__main__":
     parser = argparse.ArgumentParser()
-- 
2.43.0


From dcfb03c8ee4b05e6b52232f6b9be62889abb7f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 23/32] fix: an interrupt during the collection is not
 swallowed as an unreadable statistics file

---
 dyson/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 879c59f..1edb288 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -222,7 +222,7 @@ def CollectStatis(_map, runGamma3=False):
                     GammaWNormAccu=dataW['NormAccu']
                     GammaWNorm=dataW['Norm']
                     # GammaWFluc.append(dataW['WeightAccu'][0,0,0,0,:]/dataW['NormAccu']*dataW['Norm'])
-        except:
+        except Exception:
             log.info("Fails to merge\n {0}".format(traceback.format_exc()))
         else:
             Success+=1.0
-- 
2.43.0


From 498e10f64ccc25f8b926fd50e1b26dde43daacc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:10 +0000
Subject: [PATCH 24/32] fix: a short timer period must not be perturbed to zero

---
 job_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 00540c2..3a1db18 100644
--- a/job_class.py
+++ b/job_class.py
@@ -81,7 +81,7 @@ class JobMonteCarlo(Job):
         Timer=Dict["Para"]["Markov"]["Timer"]
         #don't let MC process output at the same time
         for e in Timer.keys():
-            Timer[e]=int(Timer[e]*random.uniform(0.8, 1.2))
+            Timer[e]=max(1, int(Timer[e]*random.uniform(0.8, 1.2)))
         return pid, Dict
 
 class JobDyson(Job):
-- 
2.43.0


From 928f786d77c7211717c4a21c55a588ce29a0b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:10 +0000
Subject: [PATCH 25/32] fix: several Monte Carlo jobs of one inlist must not
 get the same PIDs

---
 job_class.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/job_class.py b/job_class.py
index 3a1db18..24ba532 100644
--- a/job_class.py
+++ b/job_class.py
@@ -51,6 +51,7 @@ class Job:
 
 class JobMonteCarlo(Job):
     '''job subclass for monte carlo jobs'''
+    UsedPID=[] #PIDs taken by the other monte carlo jobs of the inlist
     def __init__(self, para):
         Job.__init__(self, para)
         self.job["Type"] = "MC"
@@ -59,10 +60,12 @@ class JobMonteCarlo(Job):
         PIDList, NextPID=get_current_PID("statis")
         if len(PIDList) is not 0:
             self.job["DoesLoad"]=True
-            self.pid=PIDList[:self.control["__Duplicate"]]
+            self.pid=[e for e in PIDList if e not in JobMonteCarlo.UsedPID][:self.control["__Duplicate"]]
         else:
             self.job["DoesLoad"]=False
+            NextPID+=len(JobMonteCarlo.UsedPID)
             self.pid=range(NextPID, NextPID+self.control["__Duplicate"])
+        JobMonteCarlo.UsedPID.extend(self.pid)
 
     def __check_parameters__(self, para):
         if Job.__check_parameters__(self, para) is False:
-- 
2.43.0


From e88b71bbf3b4c82ab9fbcda8a55708c2254317ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 26/32] fix: foreign files of the working directory are not
 taken for the statistics of a worker

---
 job_class.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/job_class.py b/job_class.py
index 24ba532..ebee0c4 100644
--- a/job_class.py
+++ b/job_class.py
@@ -4,8 +4,9 @@ import sys, os, random, re, copy
 
 def get_current_PID(KeyWord):
     workspace=os.path.abspath(".")
-    #only files of a numbered job count, each job once
-    filelist=sorted(set([int(e.split('_')[0]) for e in os.listdir(workspace) if (KeyWord in e) and e.split('_')[0].isdigit()]))
+    #only the result files of a numbered job count, e.g. 3_MC_statis.hkl
+    matches=[re.match("([0-9]+)_MC_"+KeyWord+"[.]hkl$", e) for e in os.listdir(workspace)]
+    filelist=sorted(set([int(m.group(1)) for m in matches if m is not None]))
     if len(filelist)==0:
         NextPID=0
     else:
-- 
2.43.0


From a4c0c677615be3c2083b05245dbf48b65c8e2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:25 +0000
Subject: [PATCH 27/32] fix: the self-consistency process must survive
 statistics in which nothing is sampled yet

---
 dyson/collect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index 1edb288..2381d7b 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -99,7 +99,8 @@ class WeightEstimator():
                 order-=1
                 break
         try:
-            self.__Plot(Info, DoesSaveFigure)
+            if len(Info)>0:
+                self.__Plot(Info, DoesSaveFigure)
         except:
             raise
             log.warning("Failed to plot statistics of {0} at order {1}".format(Name, Position[0]))
-- 
2.43.0


From 3b2049228200381f62b1d748e511c8504cfe06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 28/32] fix: a worker must not die when its diagram has no
 weight under the new G and W

---
 src/environment/envMonteCarlo.cpp | 13 +++++++++----
 src/module/diagram/diagram_IO.cpp |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/environment/envMonteCarlo.cpp b/src/environment/envMonteCarlo.cpp
index 1b164f4..dbb0b2d 100644
--- a/src/environment/envMonteCarlo.cpp
+++ b/src/environment/envMonteCarlo.cpp
@@ -194,11 +194,16 @@ bool EnvMonteCarlo::ListenToMessage()
         MarkovMonitor.SqueezeStatistics(Message_.SqueezeFactor);
         LOG_INFO("Annealled to " << Message_.PrettyString()
                                  << "\nwith squeeze factor" << Message_.SqueezeFactor);
-        if(Diag.CheckDiagram()){
-            LOG_INFO("Diagram Check pass.");
-        }else {
-            ABORT("Diagram Check didn't pass when annealing!");
+        if(!Diag.CheckDiagram()){
+            //the weight of the current diagram may vanish with the new G and W
+            LOG_WARNING("Current diagram is not allowed any more, start from a new one!");
+            Diag.BuildNew(Para.Lat, *Weight.G, *Weight.W);
+            Markov.Reset(Para, Diag, Weight);
+            MarkovMonitor.Reset(Para, Diag, Weight);
+            if(!Diag.CheckDiagram())
+                ABORT("Diagram Check didn't pass when annealing!");
         }
+        LOG_INFO("Diagram Check pass.");
 
         return true;
     }
diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index aaf891f..5980460 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -180,10 +180,10 @@ void Diagram::BuildNew(Lattice& lat, weight::GClass& g, weight::WClass& w)
         "[{'Name': 0, 'Sublat': 0, 'Coordi':" + coord + ", 'Tau': 0.0, 'SpinIn': 1, 'SpinOut' :1},"
         "{'Name': 1, 'Sublat': 0, 'Coordi':" + coord + ", 'Tau': 0.0, 'SpinIn': 1, 'SpinOut' :1}],"
         "'G':"
-        "[{'IN': 0, 'OUT': 1, 'K': 1, 'IsMeasure': True, 'IsGGGammaG': False},"
+        "[{'IN': 0, 'OUT': 1, 'K': 1, 'IsMeasure': False, 'IsGGGammaG': False},"
         "{'IN': 1, 'OUT': 0, 'K': 2, 'IsMeasure': False, 'IsGGGammaG': False}],"
         "'W':"
-        "[{'IN': 0, 'OUT': 1, 'K': 1, 'IsDelta': False, 'IsMeasure': False, 'IsWWGammaW': False}]}");
+        "[{'IN': 0, 'OUT': 1, 'K': 1, 'IsDelta': False, 'IsMeasure': True, 'IsWWGammaW': False}]}");
 
     if (!FromDict(Config))
         ABORT("Faile to construct diagram!");
-- 
2.43.0


From c4c0db5c7d7a0df8fd83ce905b2e7cb827aca7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:29 +0000
Subject: [PATCH 29/32] fix: a file named like a statistics file but for its
 .hkl was collected as that file, a second time

---
 dyson/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyson/collect.py b/dyson/collect.py
index 2381d7b..fc19020 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -159,6 +159,7 @@ class WeightEstimator():
 def GetFileList():
     FileList = [f for f in os.listdir(workspace) if os.path.isfile(os.path.join(workspace,f))]
     FileList = [f for f in FileList if f[0]!="_"]
+    FileList = [f for f in FileList if f.endswith(".hkl")] #a name without it would be read as the file with it, twice
     StatisFileList=[os.path.join(workspace, f) for f in FileList if f.find(StatisFilePattern) is not -1]
     return StatisFileList
 
-- 
2.43.0


From 5bd35d65b117d25d6674c282f6dc924ba5ecafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:57 +0000
Subject: [PATCH 30/32] fix: collect vertex statistics only from files whose
 shape and normalisation can be used

A file whose GammaG or GammaW array has another shape failed in the middle of
the merge, after its Sigma and Polar parts had been added, and a vanishing
normalisation ended the calculation with a ZeroDivisionError instead of the
usual CollectStatisFailure.
---
 dyson/collect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dyson/collect.py b/dyson/collect.py
index fc19020..45d536f 100644
--- a/dyson/collect.py
+++ b/dyson/collect.py
@@ -195,9 +195,12 @@ def CollectStatis(_map, runGamma3=False):
             SigmaSmoothT.CheckDict(Dict['Sigma']['Histogram'])
             PolarSmoothT.CheckDict(Dict['Polar']['Histogram'])
             if runGamma3:
-                for key, norm in (("GammaGStatis", GammaGNorm), ("GammaWStatis", GammaWNorm)):
-                    Dict[key]['WeightAccu'], Dict[key]['NormAccu']
-                    Assert(norm is None or norm==Dict[key]['Norm'], "Norm have to be the same to merge statistics")
+                for key, norm, accu in (("GammaGStatis", GammaGNorm, GammaGAccu), ("GammaWStatis", GammaWNorm, GammaWAccu)):
+                    Shape=Dict[key]['WeightAccu'].shape
+                    Assert(np.isfinite(Dict[key]['NormAccu']), "NormAccu has to be a number")
+                    Norm=Dict[key]['Norm']
+                    Assert(norm is None or norm==Norm, "Norm have to be the same to merge statistics")
+                    Assert(accu is None or accu.shape==Shape, "Shape have to be the same to merge statistics")
 
             SigmaSmoothT.MergeFromDict(Dict['Sigma']['Histogram'])
             PolarSmoothT.MergeFromDict(Dict['Polar']['Histogram'])
@@ -232,6 +235,8 @@ def CollectStatis(_map, runGamma3=False):
     if float(Success)/Total<AcceptRatio:
         raise CollectStatisFailure("More than {0}% statistics files fail to read!".format(100.0*AcceptRatio)) 
     if runGamma3:
+        if abs(GammaGNormAccu)<1e-3 or abs(GammaWNormAccu)<1e-3:
+            raise CollectStatisFailure("GammaG or GammaW 's NormAccu is 0.0!")
         GammaGAccu*=1.0/GammaGNormAccu*GammaGNorm
         GammaWAccu*=1.0/GammaWNormAccu*GammaWNorm
         GammaWAccu=np.array(GammaWAccu, dtype=np.complex64)
-- 
2.43.0


From e936f972b7cdd3f2ed1169bebe2360bdbfcdd26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:22 +0000
Subject: [PATCH 31/32] fix: a new diagram must lie inside every lattice

BuildNew put its vertices at coordinate 1 of the first direction, which a
lattice of size 1 in that direction does not have.
---
 src/module/diagram/diagram_IO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/diagram/diagram_IO.cpp b/src/module/diagram/diagram_IO.cpp
index 5980460..d0ad6bf 100644
--- a/src/module/diagram/diagram_IO.cpp
+++ b/src/module/diagram/diagram_IO.cpp
@@ -169,9 +169,9 @@ void Diagram::BuildNew(Lattice& lat, weight::GClass& g, weight::WClass& w)
     Dictionary Config;
     string coord;
     if (D == 2)
-        coord = "[1,0]";
+        coord = "[0,0]";
     else if (D == 3)
-        coord = "[1,0,0]";
+        coord = "[0,0,0]";
     else
         ABORT("Not implemented!");
     Config.LoadFromString(
-- 
2.43.0


From 9bd087569b12dc22e695bb9ec65e36ec45d24ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:22 +0000
Subject: [PATCH 32/32] fix: the staggered susceptibility must be the zero
 frequency one

On bipartite lattices it was computed from the correlations left in the time
domain for the energy, i.e. the equal time ones times the bin width.
---
 dyson/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dyson/measure.py b/dyson/measure.py
index 929bd8d..af56a81 100644
--- a/dyson/measure.py
+++ b/dyson/measure.py
@@ -52,6 +52,8 @@ class Observable:
         if self.__Lat.Name in ["Chain", "Assymetric_Triangular", "Square", "Cubic", "Checkerboard", "3DCheckerboard", "ValenceBond"]:
             # Chi.FFT("R", "T")
             # print Chi.Data[0,0,0,0,:,0]
+            Chi.FFT("R", "W")
+            BKChi.FFT("R", "W")
             StagK=(PI,)*self.__Map.Dim
             _, ChiK=self.__Lat.FourierTransformation(Chi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
             _, BKChiK=self.__Lat.FourierTransformation(BKChi.Data[0,:,0,:,:,0]*Factor, [StagK,],"Real")
-- 
2.43.0

