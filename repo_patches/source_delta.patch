From 94a20d01490b2140e4675058d2148ec2cb10bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 01/51] fix: mp_enorm ignored NaN elements when a very large
 element was present

---
 core/mp_enorm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/mp_enorm.cpp b/core/mp_enorm.cpp
index 690dbb8..add21ec 100644
--- a/core/mp_enorm.cpp
+++ b/core/mp_enorm.cpp
@@ -68,6 +68,10 @@ double mp_enorm( int n, const double *x )
   for (i = 0; i < n; i++) {
     xabs = fabs(x[i]);
     
+    /* NaN elements must always propagate to the result */
+    if (xabs != xabs)
+      return(xabs);
+    
     if ((xabs > RDWARF) && (xabs < agiant)) {
       /* sum for intermediate components. */
       s2 += xabs*xabs;
-- 
2.43.0


From 7b4b0c3d6926e4fafe356b3a28036940b6eb1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 02/51] fix: initialise per-image counters in ModelObject
 constructor

---
 core/model_object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..73679eb 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -156,6 +156,9 @@ ModelObject::ModelObject( )
   
   nFunctions = 0;
   nFunctionSets = 0;
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nFunctionParams = 0;
   nParamsTot = 0;
   nOversampledRegions = 0;
-- 
2.43.0


From 1271dfc7ba176a2e50e25ae08f67a398f6da4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 03/51] fix: DownsampleAndReplace computed the number of rows
 from the number of columns

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From dd5e820c8176abb077b4fe235b0969d39049ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 04/51] fix: OversampledRegion used uninitialised PSF
 dimensions when no PSF was added

---
 core/oversampled_region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/oversampled_region.cpp b/core/oversampled_region.cpp
index 40e96a7..e75fbbd 100644
--- a/core/oversampled_region.cpp
+++ b/core/oversampled_region.cpp
@@ -104,6 +104,7 @@ OversampledRegion::OversampledRegion( )
   maxRequestedThreads = 0;   // default value --> use all available processors/cores
   psfInterpolator = nullptr;
   psfInterpolator_allocated = false;
+  nPSFColumns = nPSFRows = 0;
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
   
   debugImageName = "oversampled_region_testoutput";
-- 
2.43.0


From 27069ce91bb69b801977729e8b39149a8ef01d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:30 +0000
Subject: [PATCH 05/51] fix: Poisson-MLR terms were computed before masked
 non-finite data pixels were zeroed

---
 core/model_object.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 73679eb..b7cc46c 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1016,10 +1016,6 @@ int ModelObject::FinalSetupForFitting( )
       return -1;
   }
   
-  // Generate extra terms vector from data for modified Cash statistic, if using latter
-  if ((useCashStatistic) && (poissonMLR))
-    GenerateExtraCashTerms();
-
   // If an external error map was supplied, identify currently unmasked *error* pixels 
   // which have non-finite values and add those pixels to the mask
   //   Possible sources of bad pixel values:
@@ -1067,6 +1063,11 @@ int ModelObject::FinalSetupForFitting( )
     }
   }
   
+  // Generate extra terms vector from data for modified Cash statistic, if using latter
+  // (must be done *after* VetDataVector has zeroed masked non-finite data pixels)
+  if ((useCashStatistic) && (poissonMLR))
+    GenerateExtraCashTerms();
+
 #ifdef DEBUG
   PrintInputImage();
   PrintMask();
-- 
2.43.0


From 08917817d20aef64097c4fb9a05296e0c0148dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:07 +0000
Subject: [PATCH 06/51] fix: model-based weights became NaN where the model
 plus sky is negative

---
 core/model_object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index b7cc46c..4b55ac8 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1362,6 +1362,8 @@ void ModelObject::UpdateWeightVector(  )
         iDataCol = z - (long)iDataRow * (long)nDataColumns;
         zModel = (long)nModelColumns * (long)(nPSFRows + iDataRow) + nPSFColumns + iDataCol;
         totalFlux = modelVector[zModel] + originalSky;
+        if (totalFlux < 0.0)
+          totalFlux = 0.0;
         noise_squared = totalFlux/effectiveGain + nCombined*readNoise_adu_squared;
         // POSSIBLE PROBLEM: if originalSky = model flux = read noise = 0, we'll have /0 error!
         weightVector[z] = 1.0 / sqrt(noise_squared);
@@ -1376,6 +1378,8 @@ void ModelObject::UpdateWeightVector(  )
         // (don't rely on previous weightVector[z] value, since sometimes model flux
         // might be zero for an unmasked pixel)
         totalFlux = modelVector[z] + originalSky;
+        if (totalFlux < 0.0)
+          totalFlux = 0.0;
         noise_squared = totalFlux/effectiveGain + nCombined*readNoise_adu_squared;
         // POSSIBLE PROBLEM: if originalSky = model flux = read noise = 0, we'll have /0 error!
         weightVector[z] = 1.0 / sqrt(noise_squared);
-- 
2.43.0


From 5b48901105e7c34d4d6220059deadace16069d2a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 07/51] fix: PrintToString failed for output of 1024 characters
 or more

---
 core/utilities.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..a727937 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -72,13 +72,17 @@ string vformat( const char *fmt, va_list ap )
 
   while (1) {
     // Try to vsnprintf into our buffer.
-    int  needed = vsnprintf(buf, size, fmt, ap);
+    // (use a copy of the argument list, since we may need to go through it again)
+    va_list ap_copy;
+    va_copy(ap_copy, ap);
+    int  needed = vsnprintf(buf, size, fmt, ap_copy);
+    va_end(ap_copy);
     // NB. C99 (which modern Linux and OS X follow) says vsnprintf
     // failure returns the length it would have needed.  But older
     // glibc and current Windows return -1 for failure, i.e., not
     // telling us how much was needed.
 
-    if (needed <= (int)size && needed >= 0) {
+    if (needed < (int)size && needed >= 0) {
       // It fit fine so we're done.
       return string(buf, (size_t)needed);
     }
-- 
2.43.0


From ba3f580a381032db9767068bffb141187aff1292 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 08/51] fix: SplitString kept leading delimiters when only one
 token followed them

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index a727937..09154b1 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -218,7 +218,7 @@ void SplitString( const string& str, vector<string>& tokens, const string& delim
   string::size_type  lastPos = str.find_first_not_of(delimiters, 0);
   // Find first "non-delimiter".
   string::size_type  pos = str.find_first_of(delimiters, lastPos);
-  if (pos == string::npos) {
+  if (str.find_first_of(delimiters, 0) == string::npos) {
     // oops, no delimiters in this string, so just return the whole string
     tokens.push_back(str);
   }
-- 
2.43.0


From 53db0300d44a14226aaa3acb3fd811bc6b0e53c3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 09/51] fix: configuration-file keywords inside comments or
 later in a line were taken as keywords

---
 core/config_file_parser.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..3c1d68c 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -47,6 +47,7 @@ int AddParameterAndLimit( string& currentLine, vector<double>& parameterList,
 void AddOptionalParameter( string& currentLine, map<string, string>& optionalParamsMap );
 //void AddFunctionName( string& currentLine, vector<string>& functionNameList );
 void ReportConfigError( const int errorCode, const int origLineNumber );
+static bool StartsWith( const string& line, const string& keyword );
 
 
 /* ------------------------ Global Variables --------------------------- */
@@ -58,6 +59,15 @@ static string  fixedIndicatorString = "fixed";
 
 
 
+/* ---------------- FUNCTION: StartsWith ------------------------------- */
+// Returns true if the line begins with the specified keyword (i.e., keywords which
+// only appear later in the line -- for example, inside a comment -- are ignored).
+static bool StartsWith( const string& line, const string& keyword )
+{
+  return (line.compare(0, keyword.size(), keyword) == 0);
+}
+
+
 /* ---------------- FUNCTION: ValidParameterLine ----------------------- */
 // Checks to see that a line has at least two tokens. In addition, if we're
 // in standard parameter-line mode (as opposed checking a parameter line in 
@@ -267,12 +277,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // OK, locate the start of the function set (first line beginning with "X0")
   i = 0;
   while (i < nInputLines) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (StartsWith(inputLines[i], "X0")) {
       functionSectionStart = i;
       functionSectionFound = true;
       if (mode2D) {
         // for 2D (makeimage or imfit) mode, the next line must start with "Y0"
-        if ( ((i + 1) == nInputLines) || (inputLines[i + 1].find("Y0", 0) == string::npos) ) {
+        if ( ((i + 1) == nInputLines) || (! StartsWith(inputLines[i + 1], "Y0")) ) {
           yValueOK = false;
           *badLineNumber = origLineNumbers[i];
         }
@@ -285,7 +295,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   // Check to make sure we have at least one FUNCTION line
   if ((functionSectionFound) && (yValueOK)) {
     for (i = functionSectionStart; i < nInputLines; i++) {
-      if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+      if (StartsWith(inputLines[i], "FUNCTION")) {
         functionsExist = true;
         break;
       }
@@ -302,13 +312,13 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       LOG_F(2, "VetConfigFile: checking line %d (orig = %d): %s", i, 
       		origLineNumbers[i], inputLines[i].c_str());
 #endif
-      if (inputLines[i].find("FUNCTION", 0) == string::npos) {
+      if (! StartsWith(inputLines[i], "FUNCTION")) {
         // test for valid line
-        if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+        if (StartsWith(inputLines[i], OPTIONAL_PARAMS_START)) {
           inOptionalParams = true;
           continue;
         }
-        if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+        if (StartsWith(inputLines[i], OPTIONAL_PARAMS_END)) {
           inOptionalParams = false;
           continue;
         }
@@ -400,7 +410,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
   int  paramNumber = 0;
   parameterLimitsFound = false;
   while (i < (int)inputLines.size()) {
-    if (inputLines[i].find("X0", 0) != string::npos) {
+    if (StartsWith(inputLines[i], "X0")) {
       //printf("X0 detected (i = %d)\n", i);
       fsetStartIndices.push_back(functionNumber);
       pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -415,7 +425,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if (! StartsWith(inputLines[i], "Y0")) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
           				origLineNumbers[i] - 1);
@@ -435,7 +445,7 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     
-    if (inputLines[i].find("FUNCTION", 0) != string::npos) {
+    if (StartsWith(inputLines[i], "FUNCTION")) {
       //printf("Function detected (i = %d)\n", i);
       AddFunctionNameAndLabel(inputLines[i], functionNameList, functionLabels);
       // add empty optional-params map
@@ -448,12 +458,12 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
 
     // OK, we only reach here if we're inside an individual function specification,
     // so it's a regular (non-positional) parameter line *or* optional-parameter specification
-    if (inputLines[i].find(OPTIONAL_PARAMS_START, 0) != string::npos) {
+    if (StartsWith(inputLines[i], OPTIONAL_PARAMS_START)) {
       inOptionalParams = true;
       i++;
       continue;
     }
-    if (inputLines[i].find(OPTIONAL_PARAMS_END, 0) != string::npos) {
+    if (StartsWith(inputLines[i], OPTIONAL_PARAMS_END)) {
       // Note that optionalParamsMap will be empty if no optional-parameter section
       // was found; this is fine.
       inOptionalParams = false;
-- 
2.43.0


From 83c3602d76888e1ec01120cb90d6346f8388f5cc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 10/51] fix: an X0 line at the end of a configuration file made
 the parser read past the last line

---
 core/config_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 3c1d68c..9a478f2 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -425,10 +425,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (! StartsWith(inputLines[i], "Y0")) {
+        if ( (i >= (int)inputLines.size()) || (! StartsWith(inputLines[i], "Y0")) ) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
-- 
2.43.0


From a8494e79d4bbfe0d1a914e73736c34e4f8c8d26e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 11/51] fix: FUNCTION lines without a name and optional
 parameters before any function made the configuration parser read outside its
 vectors

---
 core/config_file_parser.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 9a478f2..1ac114b 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -303,6 +303,7 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
   }
 
   bool inOptionalParams = false;
+  bool functionDeclared = false;
   // Check to make sure that non-FUNCTION lines (i.e., parameter lines)
   // have at least parameter name and a value
   if (functionsExist) {
@@ -315,6 +316,12 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
       if (! StartsWith(inputLines[i], "FUNCTION")) {
         // test for valid line
         if (StartsWith(inputLines[i], OPTIONAL_PARAMS_START)) {
+          if (! functionDeclared) {
+            // optional parameters must belong to a function
+            allOK = false;
+            *badLineNumber = origLineNumbers[i];
+            break;
+          }
           inOptionalParams = true;
           continue;
         }
@@ -322,7 +329,10 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           inOptionalParams = false;
           continue;
         }
-        if (! ValidParameterLine(inputLines[i], inOptionalParams)) {
+        // (X0 and Y0 lines are always treated as regular parameter lines)
+        bool isOptionalParam = inOptionalParams && (! StartsWith(inputLines[i], "X0"))
+        						&& (! StartsWith(inputLines[i], "Y0"));
+        if (! ValidParameterLine(inputLines[i], isOptionalParam)) {
 #ifdef USE_LOGGING
           LOG_F(2, "VetConfigFile: invalid parameter line (line %d)", i);
 #endif
@@ -331,6 +341,19 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           break;
         }
       }
+      else {
+        // FUNCTION line: the function name must be present
+        string  functionLine = inputLines[i];
+        vector<string>  stringPieces;
+        ChopComment(functionLine);
+        SplitString(functionLine, stringPieces);
+        if (stringPieces.size() < 2) {
+          allOK = false;
+          *badLineNumber = origLineNumbers[i];
+          break;
+        }
+        functionDeclared = true;
+      }
     }
   }
   
-- 
2.43.0


From 71a663cab1489cf2149a4cbd1193e56f4149f223 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 00:51:53 +0000
Subject: [PATCH 12/51] fix: NaN parameter limits or values were accepted as
 valid limits

---
 core/config_file_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 1ac114b..2a8ae08 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -169,7 +169,7 @@ int AddParameterAndLimit( string& currentLine, vector<double>& parameterList,
         newParamLimit.limited[1] = 1;
         lowerLimit = strtod(newPieces[0].c_str(), nullptr);
         upperLimit = strtod(newPieces[1].c_str(), nullptr);
-        if (lowerLimit >= upperLimit) {
+        if (! (lowerLimit < upperLimit)) {   // (also catches NaN)
           fprintf(stderr, "*** WARNING: first parameter limit for \"%s\" (%g) must be < second limit (%g)!\n",
           				stringPieces[0].c_str(), lowerLimit, upperLimit);
           if (lowerLimit == upperLimit) {
@@ -178,7 +178,7 @@ int AddParameterAndLimit( string& currentLine, vector<double>& parameterList,
           fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumber);
           return -1;
         }
-        if ((paramVal < lowerLimit) || (paramVal > upperLimit)) {
+        if (! ((paramVal >= lowerLimit) && (paramVal <= upperLimit))) {   // (also catches NaN)
           fprintf(stderr, "*** WARNING: initial parameter value for \"%s\" (%g) must lie between the limits (%g,%g)!\n",
           				stringPieces[0].c_str(), paramVal, lowerLimit, upperLimit);
           fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumber);
-- 
2.43.0


From 8bf5f699aea8d2110e48a4fe79dc9c4d8edf8e08 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:14:14 +0000
Subject: [PATCH 13/51] fix: image sections without both coordinate ranges made
 the bracket parsers read outside their vectors

---
 core/utilities.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 09154b1..4b0b502 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -314,9 +314,18 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
   // Trim away "[" at start, "]" at end if user accidentally included them
   string::size_type  startIndex = bracketString.find_first_not_of("[");
   string::size_type  endIndex = bracketString.find_last_not_of("]");
+  if (startIndex == string::npos) {
+    fprintf(stderr, "\nWARNING: Empty image section (\"%s\")!\n", bracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   copyBracketString = bracketString.substr(startIndex, (endIndex - startIndex + 1) );
 
   SplitString(copyBracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format!\n");
+    fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
+    return std::make_tuple(0,0,0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
@@ -325,7 +334,7 @@ std::tuple<int, int, int, int> GetAllCoordsFromBracket( const string& bracketStr
     if (subsectionPieces_x.size() != 2) {
       fprintf(stderr, "\nWARNING1: Incorrect image section format!\n");
       fprintf(stderr, "\t\"%s\"\n", copyBracketString.c_str());
-      std::make_tuple(0,0,0,0);
+      return std::make_tuple(0,0,0,0);
     }
     x1 = atoi(subsectionPieces_x[0].c_str());
     x2 = atoi(subsectionPieces_x[1].c_str());
@@ -362,6 +371,11 @@ std::tuple<int, int>  GetStartCoordsFromBracket( const string& bracketString,
   x1 = y1 = 0;
   
   SplitString(bracketString, sectionPieces, ",");
+  if (sectionPieces.size() != 2) {
+    fprintf(stderr, "\nWARNING: Incorrect image section format in \"%s\"!\n",
+    				fileName.c_str());
+    return std::make_tuple(0,0);
+  }
   // handle the x part of the section specification
   if (sectionPieces[0] == star)
     x1 = 1;
-- 
2.43.0


From 97591246663e4d060ee0d2177bea37a89d71fde0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 14/51] fix: image sections with one coordinate range missing
 were taken for extension numbers

---
 core/utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 4b0b502..f02e426 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -460,7 +460,9 @@ std::tuple<int, int> GetPixelStartCoords( const string& inputFilename )
     return std::make_tuple(xStart, yStart);
   }
   // if we don't have an image section, we need to have an image extension number
-  if ((nPieces != 1) || (sectionSubstring.size() < 1)) {
+  // (with no comma in it)
+  if ((nPieces != 1) || (sectionSubstring.size() < 1)
+  		|| (sectionSubstring.find(',', 0) != string::npos)) {
     fprintf(stderr, "\nWARNING: Incorrect image section format in \"%s\"!\n",
   					inputFilename.c_str());
     return std::make_tuple(0,0);
-- 
2.43.0


From 92787c3281590783a522b3cb5905494edd26e30a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:17:54 +0000
Subject: [PATCH 15/51] fix: option values containing '=' were truncated and
 '-=' read outside a vector

---
 core/commandline_parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/commandline_parser.cpp b/core/commandline_parser.cpp
index 2faa8d6..b782f30 100644
--- a/core/commandline_parser.cpp
+++ b/core/commandline_parser.cpp
@@ -277,8 +277,7 @@ void CLineParser::AddUsageLine( const string usageLine )
 /// Main method which parses command line
 int CLineParser::ParseCommandLine( int argc, char *argv[] )
 {
-  string  currentString;
-  vector<string>  stringPieces;
+  string  currentString, optionName, targetString;
   OptionObject  *currentOpt;
   int  i;
   
@@ -298,11 +297,15 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
       }
       if (verboseLevel > 1)
         printf("\tflag or option: %s\n", currentString.c_str());
-      // chop the string up if there's an "=" in the middle
-      SplitString(currentString, stringPieces, "=");
-      if (optMap.count(stringPieces[0]) > 0) {
+      // chop the string up at the (first) "=", if there is one
+      string::size_type  equalsLoc = currentString.find('=');
+      optionName = currentString.substr(0, equalsLoc);
+      targetString = "";
+      if (equalsLoc != string::npos)
+        targetString = currentString.substr(equalsLoc + 1);
+      if (optMap.count(optionName) > 0) {
         // OK, this is a valid flag or option
-        currentOpt = optMap[stringPieces[0]];
+        currentOpt = optMap[optionName];
         if (currentOpt->IsFlag()) {
           // It's a flag, so set it
           currentOpt->SetFlag();
@@ -311,8 +314,8 @@ int CLineParser::ParseCommandLine( int argc, char *argv[] )
         else {
           // It's an option with a target
           // check for "=" format
-          if (stringPieces.size() > 1) {
-            currentOpt->StoreTarget(stringPieces[1].c_str());
+          if (targetString.size() > 0) {
+            currentOpt->StoreTarget(targetString.c_str());
             continue;
           }
           else {   // no equals sign, so should be "-opt target" format
-- 
2.43.0


From fd23fb24b2f2f94d98d48cbf79c62992bb20ddca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:34:26 +0000
Subject: [PATCH 16/51] fix: image-info line numbers were stored from an
 uninitialised variable

---
 core/imageparams_file_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..2873626 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -583,7 +583,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
-- 
2.43.0


From 585c31b97e156263c03d85ad0f965f308c29f966 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:34:27 +0000
Subject: [PATCH 17/51] fix: image-info keywords later in a line were taken as
 section starts

---
 core/imageparams_file_parser.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 2873626..193fd3e 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -85,6 +85,15 @@ const string fixedIndicatorString = "fixed";
 
 void ReportConfigError( const vector<int> &errorCodes, 
 						const vector<int> &origLineNumbers );
+static bool StartsWith( const string& line, const string& keyword );
+
+
+/* ---------------- FUNCTION: StartsWith ------------------------------- */
+// Returns true if the line begins with the specified keyword
+static bool StartsWith( const string& line, const string& keyword )
+{
+  return (line.compare(0, keyword.size(), keyword) == 0);
+}
 
 /* ---------------- FUNCTION: ReportConfigError ------------------------ */
 void ReportConfigError( const vector<int> &errorCodes, 
@@ -134,7 +143,7 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   i = 0;
   nInputLines = inputLines.size();
   while (i < nInputLines) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos) {
+    if (StartsWith(inputLines[i], "IMAGE_START")) {
       imageSectionFound = true;
       break;
     }
@@ -145,12 +154,12 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
   for (i = 0; i < nInputLines; i++) {
     // need to copy string so ValidParameterLine() can accept & operate on it.
     string currentLine = inputLines[i];
-    if (currentLine.find("IMAGE_START", 0) != string::npos) {
+    if (StartsWith(currentLine, "IMAGE_START")) {
       imageSectionFound = true;
       continue;
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
-    if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
+    if (! StartsWith(currentLine, "FUNCTIONS_START")) {
       if (! ValidParameterLine(currentLine, true)) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
@@ -535,7 +544,7 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
   int  returnVal = 0;
   
   for (int i = 0; i < nLines; i++) {
-    if (lines[i].find("FUNCTIONS_START", 0) != string::npos) {
+    if (StartsWith(lines[i], "FUNCTIONS_START")) {
       returnVal = i;
       break;
     }
@@ -602,7 +611,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
 
   // look for IMAGE_START to chop up input into per-image sections
   for (i = 0; i < nInputLines; i++) {
-    if (inputLines[i].find("IMAGE_START", 0) != string::npos)
+    if (StartsWith(inputLines[i], "IMAGE_START"))
       imageStartIndices.push_back(i);
   }
   nImages = imageStartIndices.size();
-- 
2.43.0


From edd8771af2d1f4a9f856a1b2b1b752dcf6d7e1f7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 18/51] fix: malformed values in image-info files made the
 parser read outside its vectors

---
 core/imageparams_file_parser.cpp | 74 +++++++++++++++++++++++++-------
 core/makemultimages_main.cpp     |  5 +++
 2 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 193fd3e..28fae89 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -86,6 +86,7 @@ const string fixedIndicatorString = "fixed";
 void ReportConfigError( const vector<int> &errorCodes, 
 						const vector<int> &origLineNumbers );
 static bool StartsWith( const string& line, const string& keyword );
+static bool IsFlagKeyword( const string& keyword );
 
 
 /* ---------------- FUNCTION: StartsWith ------------------------------- */
@@ -95,6 +96,18 @@ static bool StartsWith( const string& line, const string& keyword )
   return (line.compare(0, keyword.size(), keyword) == 0);
 }
 
+
+/* ---------------- FUNCTION: IsFlagKeyword ---------------------------- */
+// Returns true for keywords which do not need to be followed by a value
+static bool IsFlagKeyword( const string& keyword )
+{
+  return ( (keyword == PARAMETER_FLAG_MASK_ZERO_IS_GOOD) || 
+  			(keyword == PARAMETER_FLAG_MASK_ZERO_IS_BAD) ||
+  			(keyword == PARAMETER_FLAG_ERRORS_ARE_SIGMAS) || 
+  			(keyword == PARAMETER_FLAG_ERRORS_ARE_VARIANCES) ||
+  			(keyword == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) );
+}
+
 /* ---------------- FUNCTION: ReportConfigError ------------------------ */
 void ReportConfigError( const vector<int> &errorCodes, 
 						const vector<int> &origLineNumbers )
@@ -306,7 +319,8 @@ std::tuple<double *, int> GetImageDescriptionParams( const vector<ImageInfo> ima
 
 
 // status = 0 for just a parameter value, 1 for fixed parameter,
-// 2 for parameter value and limit(s), or -1 for problem
+// 2 for parameter value and limit(s), -1 for limits which are out of order or do not
+// enclose the value, or -2 for missing numbers
 std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
 {
   double  paramVal;
@@ -316,14 +330,17 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
   mp_par  newParamLimit;
   int  status = 0;
 
+  memset(&newParamLimit, 0, sizeof(mp_par));
   stringPieces.clear();
   SplitString(theLine, stringPieces);
+  if (stringPieces.size() < 2) {
+    fprintf(stderr, "*** WARNING: no parameter value in image-info line \"%s\"!\n", theLine.c_str());
+    return std::make_tuple(0.0, newParamLimit, -2);
+  }
   // first piece is parameter name, which we ignore; second piece is initial value
   paramVal = strtod(stringPieces[1].c_str(), nullptr);
 
-  // OK, now we create a new mp_par structure and check for possible parameter limits
-//   bzero(&newParamLimit, sizeof(mp_par));
-  memset(&newParamLimit, 0, sizeof(mp_par));
+  // OK, now we check for possible parameter limits
   if (stringPieces.size() > 2) {
     // parse and store parameter limits, if any
     extraPiece = stringPieces[2];
@@ -335,11 +352,16 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
         status = 2;
         newPieces.clear();
         SplitString(extraPiece, newPieces, ",");
+        if (newPieces.size() != 2) {
+          fprintf(stderr, "*** WARNING: parameter limits for \"%s\" must be two numbers (not \"%s\")!\n",
+          				stringPieces[0].c_str(), extraPiece.c_str());
+          return std::make_tuple(paramVal, newParamLimit, -2);
+        }
         newParamLimit.limited[0] = 1;
         newParamLimit.limited[1] = 1;
         lowerLimit = strtod(newPieces[0].c_str(), nullptr);
         upperLimit = strtod(newPieces[1].c_str(), nullptr);
-        if (lowerLimit >= upperLimit) {
+        if (! (lowerLimit < upperLimit)) {   // (also catches NaN)
           fprintf(stderr, "*** WARNING: first parameter limit for \"%s\" (%g) must be < second limit (%g)!\n",
           				stringPieces[0].c_str(), lowerLimit, upperLimit);
           if (lowerLimit == upperLimit) {
@@ -347,7 +369,7 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
           }
           status = -1;
         }
-        if ((paramVal < lowerLimit) || (paramVal > upperLimit)) {
+        if (! ((paramVal >= lowerLimit) && (paramVal <= upperLimit))) {   // (also catches NaN)
           fprintf(stderr, "*** WARNING: initial parameter value for \"%s\" (%g) must lie between the limits (%g,%g)!\n",
           				stringPieces[0].c_str(), paramVal, lowerLimit, upperLimit);
           status = -1;
@@ -368,16 +390,26 @@ std::tuple<double, mp_par, int> GetParameterAndLimits( const string theLine )
 // appropriate info in the input ImageInfo object
 // We assume that theLine has had leading and trailing whitespace (including
 // newlines) removed before this function is called.
+// Returns 0 on success, -1 if the line is badly formatted
 int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 {
   double  numericVal;
-  int  status;
+  int  status = 0;
   vector<string>  stringPieces;
   mp_par  paramLimits;
   string  parameterName, stringVal;
   
-  SplitString(theLine, stringPieces);
+  string  currentLine = theLine;
+  ChopComment(currentLine);
+  SplitString(currentLine, stringPieces);
+  if (stringPieces.empty())
+    return -1;
   parameterName = stringPieces[0];
+  if (stringPieces.size() < 2) {
+    // only the start-of-image lines and flags have no value
+    if (! (StartsWith(parameterName, "IMAGE_START") || IsFlagKeyword(parameterName)))
+      return -1;
+  }
     
   // floating-point values
   if (parameterName == PARAMETER_NAME_GAIN) 
@@ -399,7 +431,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   // Special cases of parameters with optional limits or fixed status
   
   else if (parameterName == PARAMETER_NAME_PIXEL_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(currentLine);
     imageInfo.pixelScale = numericVal;
     // special rule for PIXEL_SCALE: fixed unless limits were explicitly set
     if (status == 2)
@@ -409,7 +441,7 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_IMAGE_PA) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(currentLine);
     imageInfo.rotation = numericVal;
     // special rule for IMAGE_PA: fixed unless limits were explicitly set
     if (status == 2)
@@ -419,19 +451,19 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   }
       
   else if (parameterName == PARAMETER_NAME_FLUX_SCALE) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(currentLine);
     imageInfo.intensityScale = numericVal;
     imageInfo.intensityScale_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_X0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(currentLine);
     imageInfo.x0 = numericVal;
     imageInfo.x0_limitInfo = paramLimits;
   }
       
   else if (parameterName == PARAMETER_NAME_Y0) {
-    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(theLine);
+    std::tie(numericVal, paramLimits, status) = GetParameterAndLimits(currentLine);
     imageInfo.y0 = numericVal;
     imageInfo.y0_limitInfo = paramLimits;
   }
@@ -447,6 +479,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   else if (parameterName == PARAMETER_NAME_NROWS_NCOLS) {
     vector<string> subPieces;
     SplitString(stringPieces[1], subPieces, ",");
+    if (subPieces.size() != 2)
+      return -1;
     imageInfo.nRows = (int)strtol(subPieces[0].c_str(), nullptr, 0);
     imageInfo.nColumns = (int)strtol(subPieces[1].c_str(), nullptr, 0);
   }
@@ -454,6 +488,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
   else if (parameterName == PARAMETER_NAME_NCOLS_NROWS) {
     vector<string> subPieces;
     SplitString(stringPieces[1], subPieces, ",");
+    if (subPieces.size() != 2)
+      return -1;
     imageInfo.nColumns = (int)strtol(subPieces[0].c_str(), nullptr, 0);
     imageInfo.nRows = (int)strtol(subPieces[1].c_str(), nullptr, 0);
   }
@@ -526,6 +562,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
     ; // handle error
   }
   
+  if (status == -2)
+    return -1;
   return 0;
 }
 
@@ -535,7 +573,8 @@ int StoreInfoFromLine( const string theLine, ImageInfo& imageInfo )
 // an image-info file, this function parses each line (using StoreInfoFromLine) 
 // and populates the input vector of ImageInfo objects, one for each specified
 // image.
-// Returns 0 for standard operation (no per-image functions found); returns 
+// Returns 0 for standard operation (no per-image functions found); returns -1
+// if a line is badly formatted; returns 
 // index (> 0) for first line of per-image-function section if it exists
 int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoList )
 {
@@ -548,7 +587,10 @@ int AddInfoFromLines( const vector<string>& lines, vector<ImageInfo>& imageInfoL
       returnVal = i;
       break;
     }
-    StoreInfoFromLine(lines[i], newImageInfo);
+    if (StoreInfoFromLine(lines[i], newImageInfo) < 0) {
+      fprintf(stderr, "*** ERROR: Invalid line in image-info file: \"%s\"\n", lines[i].c_str());
+      return -1;
+    }
   }
   imageInfoList.push_back(newImageInfo);
   
@@ -631,6 +673,8 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       currentImageLines.push_back(inputLines[i]);
     // start of per-image functions section is relative to currentImageLines (0 = no such section)
     imageFunctionsOffset = AddInfoFromLines(currentImageLines, imageInfoList);
+    if (imageFunctionsOffset < 0)
+      return -1;
     // process per-image function lines, if they exist
     if (imageFunctionsOffset > 0) {
       // start with global location of current per-image functions section
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..2559f2f 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -173,6 +173,11 @@ int main( int argc, char *argv[] )
       return -1;
     }
     status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect);
+    if (status < 0) {
+      fprintf(stderr, "\n*** ERROR: Problems parsing image-info file \"%s\"!\n\n", 
+             options->imageInfoFile.c_str());
+      return -1;
+    }
     std::tie(imageDescParamsVect, nImageDescParams) = GetImageDescriptionParams(imageInfoVect);
     printf("Image-description params from image-info file \"%s\": ", options->imageInfoFile.c_str());
     for (int i = 0; i < nImageDescParams; i++)
-- 
2.43.0


From db3b25a69db4b404d9c3daf28345f3da5166d6b6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 19/51] fix: per-image function sections were parsed without
 being checked

---
 core/imageparams_file_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 28fae89..18ba38c 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -683,12 +683,19 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       imageFunctionsLines.clear();
       for (i = imageFunctionsStartIndex + 1; i < currentEndIndex; i++) {
         imageFunctionsLines.push_back(inputLines[i]);
-        functionSectionLineNumbers.push_back(i);
+        functionSectionLineNumbers.push_back(origLineNumbers[i]);
+      }
+      // per-image functions must be specified just as in a regular config file
+      int  badLineNumber = 0;
+      if (VetConfigFile(imageFunctionsLines, functionSectionLineNumbers, true, &badLineNumber) != 0) {
+        fprintf(stderr, "*** ERROR: Invalid per-image function section in image-info file (line %d)!\n",
+        				badLineNumber);
+        return -1;
       }
       bool  paramLimitsExist = false;
       int status = ParseFunctionSection(imageFunctionsLines, true, funcNameList,
 						funcLabelList, funcParams, funcParamLimits, funcSetStartIndices,
-						paramLimitsExist, functionSectionLineNumbers);
+						paramLimitsExist, functionSectionLineNumbers, true);
 	  if (status < 0) {
 	    fprintf(stderr, "ERROR MESSAGE ABOUT FAILURE IN ParseFunctionSection\n");
 	    return -1;
-- 
2.43.0


From 0c6822f8646d8c384d8859888c8a68c9a4b8bfae Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 01:34:51 +0000
Subject: [PATCH 20/51] fix: image-info flags without a value were rejected

---
 core/imageparams_file_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 18ba38c..d8e4058 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -173,7 +173,10 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
     if (! StartsWith(currentLine, "FUNCTIONS_START")) {
-      if (! ValidParameterLine(currentLine, true)) {
+      string keyword = currentLine;
+      ChopComment(keyword);
+      TrimWhitespace(keyword);
+      if (! (IsFlagKeyword(keyword) || ValidParameterLine(currentLine, true))) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
         nErrors += 1;
-- 
2.43.0


From 5705d6a5cadc4c2574afbf1290be5fcb1a8e5d77 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 21/51] fix: multi-image bootstrap deviates were written past
 the end of the output when images have masked pixels

---
 core/model_object_multimage.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..a0a76ae 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -436,7 +436,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // in bootstrap mode, each ModelObject only writes deviates for its valid pixels
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -729,6 +733,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
-- 
2.43.0


From d3d3c9fe59a0c3eade544f8919ee002126835d14 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 22/51] fix: bootstrap summary compared best-fit X0,Y0 without
 the image-section offset with samples that include it

---
 core/bootstrap_errors.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..50ca9e8 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -104,8 +104,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+  double  *paramOffsets = (double *) calloc((size_t)nParams, sizeof(double));
+  double  *bestfitParams_offsetCorrected = (double *) calloc((size_t)nParams, sizeof(double));
   
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
@@ -125,25 +125,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    theModel->GetImageOffsets(paramOffsets);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    								nIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, nIterations, 
     						parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
+  free(paramOffsets);
+  free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
-- 
2.43.0


From 46622944378eeb004258d84ad4042455f0c74f1f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 23/51] fix: bootstrap summary included the unused slots of
 failed iterations

---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 50ca9e8..08c8de5 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -133,10 +133,10 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
       PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
-    								nIterations, parameterLimits, theModel);
+    								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, nIterations, 
-    						parameterLimits, theModel);
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    						nSuccessfulIterations, parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
-- 
2.43.0


From 910c9797136826134cb6c98fb0bfaf7d453b49a7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 24/51] fix: multimfit bootstrap summary mislabelled image
 parameters and started the model parameters one too early

---
 core/bootstrap_errors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 08c8de5..e0cdb3c 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -402,18 +402,18 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
   
   // now print results for model parameters
-  i_last = i;
+  i_last = i + 1;
   printf("# Model parameters:\n");
   for (i = i_last; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
-- 
2.43.0


From 3a6f9a76f42c5539208568d358bdad8a08c6dccd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 25/51] fix: bootstrap setup failure leaked the offsets array

---
 core/bootstrap_errors.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index e0cdb3c..ef55069 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -184,6 +184,7 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -280,6 +281,7 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
-- 
2.43.0


From 0441ed0e109ebdc276c9572d0ecb1e861cca176d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 26/51] fix: multi-image parameter names stopped before the
 per-image function parameters

---
 core/model_object.cpp           | 2 +-
 core/model_object_multimage.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 4b55ac8..585dc56 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2193,7 +2193,7 @@ void ModelObject::PopulateParameterNames( )
 
 string& ModelObject::GetParameterName( int i )
 {
-  if (i < nParamsTot) {
+  if ((i >= 0) && (i < nParamsTot) && (i < (int)parameterLabels.size())) {
     return parameterLabels[i];
   }
   else
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index a0a76ae..c927351 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -285,6 +285,9 @@ int ModelObjectMultImage::FinalModelSetup( )
     nPerImageParamsForModelObjects.push_back(nExtra);
     if (nExtra > 0) {
       nPerImageParams += nExtra;
+      // per-image function parameters follow the global ones in the full parameter vector
+      for (int j = nGlobalFuncParams; j < nParamsThisImage; j++)
+        parameterLabels.push_back(modelObjectsVect[i]->GetParameterName(j));
     }
   }
   nParamsTot += nPerImageParams;
-- 
2.43.0


From c4f1ee9c4622083baa85be428c9baca5385c9372 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:08:34 +0000
Subject: [PATCH 27/51] fix: X0,Y0 of per-image functions were not corrected
 for their image's section offset

---
 core/model_object_multimage.cpp | 12 ++++++++++++
 core/model_object_multimage.h   |  2 ++
 core/utilities_multimfit.cpp    | 11 +++++++++++
 3 files changed, 25 insertions(+)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index c927351..28a01c7 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -645,6 +645,18 @@ string ModelObjectMultImage::GetDataFilename( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetNPerImageParams ----------------- */
+/// Returns the number of parameters (including X0,Y0) for the per-image functions
+/// (if any) of the specified image.
+int ModelObjectMultImage::GetNPerImageParams( int imageNumber )
+{
+  if ((imageNumber < 0) || (imageNumber >= (int)nPerImageParamsForModelObjects.size()))
+    return 0;
+  return nPerImageParamsForModelObjects[imageNumber];
+}
+
+
+
 /* ---------------- PUBLIC METHOD: PrintModelParamsHorizontalString --- */
 /// Like PrintModelParamsToString, but prints parameter values all in one line to
 /// a string (*without* parameter names or limits or errors), which is returned.
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..2881a0e 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -64,6 +64,8 @@ class ModelObjectMultImage : public ModelObject
     
     string GetDataFilename( int imageNumber );
 
+    int GetNPerImageParams( int imageNumber );
+
 
     // redefined method/member functions (from ModelObject):
     int FinalModelSetup( ) override;
diff --git a/core/utilities_multimfit.cpp b/core/utilities_multimfit.cpp
index fe685f8..8a780bd 100644
--- a/core/utilities_multimfit.cpp
+++ b/core/utilities_multimfit.cpp
@@ -73,7 +73,18 @@ void CorrectForImageOffsets( double *paramVect, vector<mp_par> &paramLimits,
   // (reference-image coordinates)
   std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(0);
 //   printf("Offsets for reference image: %d,%d\n", xOffset_ref,yOffset_ref);
+  // (parameters of per-image functions follow those of the global functions, and use 
+  // the offsets of their own image)
+  int  nImage = -1;
+  int  nextStart = nParamsTot;   // index of first parameter belonging to next image's functions
+  for (int n = 0; n < nImages; n++)
+    nextStart -= multImageModel->GetNPerImageParams(n);
   for (int i = nImageParams; i < nParamsTot; i++) {
+    while ((i >= nextStart) && (nImage < nImages - 1)) {
+      nImage += 1;
+      nextStart += multImageModel->GetNPerImageParams(nImage);
+      std::tie(xOffset_ref,yOffset_ref) = multImageModel->GetOffsetsForImage(nImage);
+    }
     if (multImageModel->GetParameterName(i) == X0_string) {
 //       printf("[X0:]     paramVect[%d] = %.1f\n", i, paramVect[i]);
       paramVect[i] -= xOffset_ref;
-- 
2.43.0


From b7bce19543ce533ff310e2e3d10e31721a060470 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:09:22 +0000
Subject: [PATCH 28/51] fix: multi-image one-line parameter output repeated or
 dropped parameters and ignored image-section offsets

---
 core/model_object.h             |  2 +-
 core/model_object_multimage.cpp | 81 +++++++++++++++++++--------------
 core/model_object_multimage.h   |  3 ++
 3 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..a75633e 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -167,7 +167,7 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    virtual void GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 28a01c7..56caa11 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -657,6 +657,40 @@ int ModelObjectMultImage::GetNPerImageParams( int imageNumber )
 
 
 
+/* ---------------- PUBLIC METHOD: GetImageOffsets -------------------- */
+/// Given an input array (all zeros), this method returns the array with locations
+/// corresponding to X0,Y0 values properly set: offsets for each image in the case of
+/// image-description parameters and per-image functions, offsets for the reference 
+/// image in the case of global functions.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+  int  nImage = -1;
+  int  nextStart = nParamsTot - nPerImageParams;
+  int  offset_x0, offset_y0;
+
+  for (int n = 1; n < nModelObjects; n++) {
+    std::tie(offset_x0, offset_y0) = modelObjectsVect[n]->GetImageOffsets();
+    params[n*N_IMAGE_PARAMS - 2] = offset_x0;
+    params[n*N_IMAGE_PARAMS - 1] = offset_y0;
+  }
+
+  std::tie(offset_x0, offset_y0) = modelObjectsVect[0]->GetImageOffsets();
+  for (int i = nImageParams; i < nParamsTot; i++) {
+    while ((i >= nextStart) && (nImage < nModelObjects - 1)) {
+      nImage += 1;
+      nextStart += GetNPerImageParams(nImage);
+      std::tie(offset_x0, offset_y0) = modelObjectsVect[nImage]->GetImageOffsets();
+    }
+    if (GetParameterName(i) == X0_string)
+      params[i] = offset_x0;
+    else if (GetParameterName(i) == Y0_string)
+      params[i] = offset_y0;
+  }
+}
+
+
+
 /* ---------------- PUBLIC METHOD: PrintModelParamsHorizontalString --- */
 /// Like PrintModelParamsToString, but prints parameter values all in one line to
 /// a string (*without* parameter names or limits or errors), which is returned.
@@ -665,40 +699,15 @@ int ModelObjectMultImage::GetNPerImageParams( int imageNumber )
 string ModelObjectMultImage::PrintModelParamsHorizontalString( const double params[], 
 																const string& separator )
 {
-  double  x0, y0, paramVal;
-  int  image1Offset_x0, image1Offset_y0;
-  int  nParamsThisFunc, k, indexOffset, nImageParams;
   string  outputString = "";
-
-  // pixel offsets for reference image
-  std::tie(image1Offset_x0, image1Offset_y0) = modelObjectsVect[0]->GetImageOffsets();
-  // number of image-description parameters
-  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
-  
-  // Line should start with parameter value (no initial separator)
-  outputString = PrintToString("%#.10g", params[0]);
-  // now we precede each subsequent parameter value with separator
-  for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
-
-  indexOffset = nImageParams;
-  for (int n = 0; n < nFunctions; n++) {
-    if (fsetStartFlags[n] == true) {
-      // start of new function set: extract x0,y0 and then skip over them
-      k = indexOffset;
-      x0 = params[k] + image1Offset_x0;
-      y0 = params[k + 1] + image1Offset_y0;
-      outputString += PrintToString("%s%#.10g%s%#.10g", separator.c_str(), x0, separator.c_str(), y0);
-      indexOffset += 2;
-    }
-
-    // Now print the function and its parameters
-    nParamsThisFunc = paramSizes[n];
-    for (int i = 0; i < nParamsThisFunc; i++) {
-      paramVal = params[indexOffset + i];
-      outputString += PrintToString("%s%#.10g", separator.c_str(), paramVal);
-    }
-    indexOffset += paramSizes[n];
+  vector<double>  offsets(nParamsTot, 0.0);
+
+  GetImageOffsets(offsets.data());
+  for (int i = 0; i < nParamsTot; i++) {
+    // Line should start with parameter value (no initial separator)
+    if (i > 0)
+      outputString += separator;
+    outputString += PrintToString("%#.10g", params[i] + offsets[i]);
   }
 
   return outputString;
@@ -731,6 +740,12 @@ string ModelObjectMultImage::GetParamHeader( )
   // get model-parameters part of header, chop off leading "# "
   baseModelParamHeader = modelObjectsVect[0]->GetParamHeader();
   headerLine += baseModelParamHeader.substr(2, string::npos);
+
+  // add per-image-function parameters for second and subsequent images
+  int  i = nParamsTot - nPerImageParams + GetNPerImageParams(0);
+  for (int n = 1; n < nModelObjects; n++)
+    for (int j = 0; j < GetNPerImageParams(n); j++, i++)
+      headerLine += PrintToString("%s_IM_%d\t", GetParameterName(i).c_str(), n + 1);
   
   return headerLine;
 }
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 2881a0e..7e05529 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -98,6 +98,9 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    using ModelObject::GetImageOffsets;
+    void GetImageOffsets( double params[] ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From eeb9fb7fb224b42a5dfe3214b27353cdd4ab1b64 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:09:22 +0000
Subject: [PATCH 29/51] fix: NCOMBINED was printed with a floating-point
 conversion

---
 core/print_results_multi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..1fa87b7 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -168,7 +168,7 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-- 
2.43.0


From 139f290f428353c08dc3a0cbc069dae78af8af38 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:09:23 +0000
Subject: [PATCH 30/51] fix: saved image-info X0,Y0 were not corrected for the
 image-section offset

---
 core/print_results_multi.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 1fa87b7..8d55552 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -93,13 +93,19 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   vector<string>  stringsForFile;
   bool  isReferenceImage;
   bool  errorsPresent = false;
-  int  whichSolver;
+  int  whichSolver, offsetX0, offsetY0;
   double  *imageDescriptionParams = (double *)calloc((size_t)nImages*N_IMAGE_PARAMS, 
   														sizeof(double));
   double  *imageDescriptionParams_errs = nullptr;
   double  *paramErrs = nullptr;
 
   multModel->GetAllImageDescriptionParameters(params, imageDescriptionParams);
+  // correct X0,Y0 for image-section-based offsets (as is done for model parameters)
+  for (int i = 1; i < nImages; i++) {
+    std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 2] += offsetX0;
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 1] += offsetY0;
+  }
 
   whichSolver = solverResults.GetSolverType();
   if (whichSolver == MPFIT_SOLVER) {
-- 
2.43.0


From 24abedeb961eeacb5a33082a894e15970941f70e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:09:56 +0000
Subject: [PATCH 31/51] fix: printed X0,Y0 limits lacked the image-section
 offset that the printed values include

---
 core/model_object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 585dc56..c18e0ff 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1859,13 +1859,15 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "X0", x0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "X0", x0, 
-        				parameterInfoVect[k].limits[0], parameterInfoVect[k].limits[1]);
+        				parameterInfoVect[k].limits[0] + imageOffset_X0, 
+        				parameterInfoVect[k].limits[1] + imageOffset_X0);
         stringVector.push_back(newLine);
         if (parameterInfoVect[k + 1].fixed == 1)
           newLine = PrintToString(XY_FORMAT_WITH_FIXED, prefix, "Y0", y0);
         else
           newLine = PrintToString(XY_FORMAT_WITH_LIMITS, prefix, "Y0", y0, 
-        				parameterInfoVect[k + 1].limits[0], parameterInfoVect[k + 1].limits[1]);
+        				parameterInfoVect[k + 1].limits[0] + imageOffset_Y0, 
+        				parameterInfoVect[k + 1].limits[1] + imageOffset_Y0);
         stringVector.push_back(newLine);
       } else {
         if (errs != nullptr) {
-- 
2.43.0


From 0af119e9e6f4a0266b3033af9b083f79d8437d96 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:49:22 +0000
Subject: [PATCH 32/51] fix: FlatBar scaled its intensity with the pixel scale
 instead of the intensity scale

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From 6ccb5a7516142eb319feb97be84b49231c26684a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 03:49:22 +0000
Subject: [PATCH 33/51] fix: TiltedSkyPlane left its slope parameters unset in
 AdjustParametersForImage

---
 function_objects/func_tilted-sky-plane.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..40cc5f7 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -76,6 +76,8 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
 {
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
+  adjustedFunctionParams[1 + offsetIndex] = inputFunctionParams[1 + offsetIndex];
+  adjustedFunctionParams[2 + offsetIndex] = inputFunctionParams[2 + offsetIndex];
   // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
 }
 
-- 
2.43.0


From d552d976eb5caa7e728617d3b3274af705c29a29 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 04:52:48 +0000
Subject: [PATCH 34/51] fix: sub-sample counts overflowed int for tiny size
 parameters

---
 function_objects/func_broken-exp.cpp   | 2 +-
 function_objects/func_broken-exp2d.cpp | 2 +-
 function_objects/func_core-sersic.cpp  | 2 +-
 function_objects/func_edge-on-disk.cpp | 4 ++--
 function_objects/func_exp.cpp          | 2 +-
 function_objects/func_ferrersbar2d.cpp | 2 +-
 function_objects/func_flatbar.cpp      | 2 +-
 function_objects/func_gaussian.cpp     | 2 +-
 function_objects/func_gen-exp.cpp      | 2 +-
 function_objects/func_gen-sersic.cpp   | 2 +-
 function_objects/func_king.cpp         | 2 +-
 function_objects/func_king2.cpp        | 2 +-
 function_objects/func_moffat.cpp       | 2 +-
 function_objects/func_sersic.cpp       | 2 +-
 14 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/function_objects/func_broken-exp.cpp b/function_objects/func_broken-exp.cpp
index faaacbc..a652092 100644
--- a/function_objects/func_broken-exp.cpp
+++ b/function_objects/func_broken-exp.cpp
@@ -205,7 +205,7 @@ int BrokenExponential::CalculateSubsamples( double r )
   // do subsampling of inner exponential only (same as for standard exponential)
   if ((doSubsampling) && (r < 10.0)) {
     if ((h1 <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / h1));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h1));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_broken-exp2d.cpp b/function_objects/func_broken-exp2d.cpp
index 5865e33..28c873b 100644
--- a/function_objects/func_broken-exp2d.cpp
+++ b/function_objects/func_broken-exp2d.cpp
@@ -208,7 +208,7 @@ int BrokenExponential2D::CalculateSubsamples( double r )
   // do subsampling of inner exponential only (same as for standard exponential)
   if ((doSubsampling) && (r < 10.0)) {
     if ((h1 <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / h1));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h1));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_core-sersic.cpp b/function_objects/func_core-sersic.cpp
index fb8a17e..9fbc30e 100644
--- a/function_objects/func_core-sersic.cpp
+++ b/function_objects/func_core-sersic.cpp
@@ -215,7 +215,7 @@ int CoreSersic::CalculateSubsamples( double r )
   // Standard Sersic subsampling, based on Chien Peng's GALFIT algorithm
   if ((doSubsampling) && (r < 10.0)) {
     if ((r_e <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / r_e));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / r_e));
     else {
       if (r <= 4.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_edge-on-disk.cpp b/function_objects/func_edge-on-disk.cpp
index 84e9936..f50922d 100644
--- a/function_objects/func_edge-on-disk.cpp
+++ b/function_objects/func_edge-on-disk.cpp
@@ -246,8 +246,8 @@ int EdgeOnDisk::CalculateSubsamples( double r, double z )
   // based on standard exponential-function subsampling
   if ( (doSubsampling) && ((R_abs < 10.0) || (z_abs < 10.0)) ) {
     if ( ((h <= 1.0) && (R_abs <= 1.0)) || ((z_0 <= 1.0) && (z_abs <= 1.0)) ) {
-      nSr = min(100, (int)(2 * SUBSAMPLE_R / h));
-      nSz = min(100, (int)(2 * SUBSAMPLE_R / z_0));
+      nSr = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h));
+      nSz = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / z_0));
       nSamples = max(nSr, nSz);
     }
     else {
diff --git a/function_objects/func_exp.cpp b/function_objects/func_exp.cpp
index 05c62c7..c1afc21 100644
--- a/function_objects/func_exp.cpp
+++ b/function_objects/func_exp.cpp
@@ -185,7 +185,7 @@ int Exponential::CalculateSubsamples( double r )
   // Standard exponential subsampling, based on Chien Peng's GALFIT algorithm
   if ((doSubsampling) && (r < 10.0)) {
     if ((h <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / h));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_ferrersbar2d.cpp b/function_objects/func_ferrersbar2d.cpp
index 2c2fed0..fbaf501 100644
--- a/function_objects/func_ferrersbar2d.cpp
+++ b/function_objects/func_ferrersbar2d.cpp
@@ -220,7 +220,7 @@ int FerrersBar2D::CalculateSubsamples( double r )
   // Subsampling as for basic (pure-ellipse) Sersic (func_sersic.cpp)
   if ((doSubsampling) && (r < 10.0)) {
     if ((a_bar <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / a_bar));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / a_bar));
     else {
       if (r <= 4.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 5a041fd..5952916 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -238,7 +238,7 @@ int FlatBar::CalculateSubsamples( double r )
   // do subsampling of inner exponential only (same as for standard exponential)
   if ((doSubsampling) && (r < 10.0)) {
     if ((h1 <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / h1));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h1));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_gaussian.cpp b/function_objects/func_gaussian.cpp
index 1acc901..f166ead 100644
--- a/function_objects/func_gaussian.cpp
+++ b/function_objects/func_gaussian.cpp
@@ -191,7 +191,7 @@ int Gaussian::CalculateSubsamples( double r )
   
   if ((doSubsampling) && (r < 10.0)) {
     if ((sigma <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(4 * SUBSAMPLE_R / sigma));
+      nSamples = (int)max(1.0, min(100.0, 4 * SUBSAMPLE_R / sigma));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_gen-exp.cpp b/function_objects/func_gen-exp.cpp
index b2215de..e75b50a 100644
--- a/function_objects/func_gen-exp.cpp
+++ b/function_objects/func_gen-exp.cpp
@@ -200,7 +200,7 @@ int GenExponential::CalculateSubsamples( double r )
   // Subsampling as for basic (pure-ellipse) exponential (func_exp.cpp)
   if ((doSubsampling) && (r < 10.0)) {
     if ((h <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / h));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / h));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_gen-sersic.cpp b/function_objects/func_gen-sersic.cpp
index ba41141..208fc3a 100644
--- a/function_objects/func_gen-sersic.cpp
+++ b/function_objects/func_gen-sersic.cpp
@@ -216,7 +216,7 @@ int GenSersic::CalculateSubsamples( double r )
   // Subsampling as for basic (pure-ellipse) Sersic (func_sersic.cpp)
   if ((doSubsampling) && (r < 10.0)) {
     if ((r_e <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / r_e));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / r_e));
     else {
       if (r <= 4.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_king.cpp b/function_objects/func_king.cpp
index 0fea5f0..ad4600d 100644
--- a/function_objects/func_king.cpp
+++ b/function_objects/func_king.cpp
@@ -202,7 +202,7 @@ int ModifiedKing::CalculateSubsamples( double r )
   // Standard exponential subsampling, based on Chien Peng's GALFIT algorithm
   if ((doSubsampling) && (r < 10.0)) {
     if ((r_c <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / r_c));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / r_c));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_king2.cpp b/function_objects/func_king2.cpp
index 48dc015..0e84978 100644
--- a/function_objects/func_king2.cpp
+++ b/function_objects/func_king2.cpp
@@ -209,7 +209,7 @@ int ModifiedKing2::CalculateSubsamples( double r )
   // Standard exponential subsampling, based on Chien Peng's GALFIT algorithm
   if ((doSubsampling) && (r < 10.0)) {
     if ((r_c <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / r_c));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / r_c));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_moffat.cpp b/function_objects/func_moffat.cpp
index 0717104..81e4c69 100644
--- a/function_objects/func_moffat.cpp
+++ b/function_objects/func_moffat.cpp
@@ -205,7 +205,7 @@ int Moffat::CalculateSubsamples( double r )
   // Chien Peng algorithm for Moffat function
   if ((doSubsampling) && (r < 10.0)) {
     if ((alpha <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(4 * SUBSAMPLE_R / alpha));
+      nSamples = (int)max(1.0, min(100.0, 4 * SUBSAMPLE_R / alpha));
     else {
       if (r <= 3.0)
         nSamples = 2 * SUBSAMPLE_R;
diff --git a/function_objects/func_sersic.cpp b/function_objects/func_sersic.cpp
index 4131c7e..9296c47 100644
--- a/function_objects/func_sersic.cpp
+++ b/function_objects/func_sersic.cpp
@@ -201,7 +201,7 @@ int Sersic::CalculateSubsamples( double r )
   // Standard Sersic subsampling, based on Chien Peng's GALFIT algorithm
   if ((doSubsampling) && (r < 10.0)) {
     if ((r_e <= 1.0) && (r <= 1.0))
-      nSamples = min(100, (int)(2 * SUBSAMPLE_R / r_e));
+      nSamples = (int)max(1.0, min(100.0, 2 * SUBSAMPLE_R / r_e));
     else {
       if (r <= 4.0)
         nSamples = 2 * SUBSAMPLE_R;
-- 
2.43.0


From 1d822170aba7e34675a076914438ab7fe09f5a6a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 35/51] fix: Lanczos PSF interpolation indexed the PSF image
 with rows and columns exchanged

---
 function_objects/psf_interpolators.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..e1d3cdb 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -182,7 +182,7 @@ double PsfInterpolator_lanczos2::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 2) * Lanczos(y - y_dat, 2);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
@@ -272,7 +272,7 @@ double PsfInterpolator_lanczos3::GetValue( double x, double y )
           else {
             y_dat = yArray[i_data_y];  // current y-value for PSF pixels
             lanczosScaling = Lanczos(x - x_dat, 3) * Lanczos(y - y_dat, 3);
-            newVal += lanczosScaling * psfDataArray[i_data_x*nColumns + i_data_y];
+            newVal += lanczosScaling * psfDataArray[i_data_y*nColumns + i_data_x];
           }
         }
       }
-- 
2.43.0


From 9f6d68f1111064defed65fedf2a2451024ac3c95 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 36/51] fix: PointSourceRot refused lanczos3 and did not keep
 its optional parameters

---
 function_objects/func_pointsource-rot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/function_objects/func_pointsource-rot.cpp b/function_objects/func_pointsource-rot.cpp
index 4ab7646..2ccb823 100644
--- a/function_objects/func_pointsource-rot.cpp
+++ b/function_objects/func_pointsource-rot.cpp
@@ -167,6 +167,10 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
         interpolationType = "lanczos2";
         break;
       }
+      if ((iter->second == "lanczos3") || (iter->second == "Lanczos3")) {
+        interpolationType = "lanczos3";
+        break;
+      }
       fprintf(stderr, "ERROR: unidentified interpolation type in PointSourceRot::SetExtraParams!\n");
       fprintf(stderr, "(\"%s\" is not a recognized interpolation type)\n",
       			iter->second.c_str());
@@ -178,8 +182,8 @@ int PointSourceRot::SetExtraParams( map<string,string>& inputMap )
       return 0;
     }
   }
-  interpolationType = iter->second;
   extraParamsSet = true;
+  inputExtraParams = inputMap;
   printf("   PointSourceRot::SetExtraParams -- setting method = %s\n", 
        		interpolationType.c_str());
   return 1;
-- 
2.43.0


From a76a25b4adde00656fef4405fea753dc19cb7bb3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 04:53:37 +0000
Subject: [PATCH 37/51] fix: point sources kept the oversampling scale of a
 region for the rest of the image

---
 core/model_object.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index c18e0ff..521172a 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1192,8 +1192,10 @@ void ModelObject::CreateModelImage( double params[] )
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1281,8 +1283,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 4b355a32d8358d92fc4fda606c83faab1ee5e37e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 04:55:04 +0000
Subject: [PATCH 38/51] fix: point sources with different interpolation methods
 shared the first one's interpolator

---
 core/model_object.cpp | 23 +++++++++++++++--------
 core/model_object.h   |  3 +++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 521172a..139bf3b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -205,8 +205,8 @@ ModelObject::~ModelObject()
   if (localPsfPixels_allocated)
     free(localPsfPixels);
 
-  if (psfInterpolator_allocated)
-    delete psfInterpolator;
+  for (auto const& interp : psfInterpolators)
+    delete interp.second;
   
   if (nFunctions > 0)
     for (int i = 0; i < nFunctions; i++)
@@ -296,14 +296,14 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
-    if (! psfInterpolator_allocated) {
-      string interpName = newFunctionObj_ptr->GetInterpolationType();
-      int interpType = interpolationMap[interpName];
+    string interpName = newFunctionObj_ptr->GetInterpolationType();
+    int interpType = interpolationMap[interpName];
+    if (psfInterpolators.count(interpType) == 0) {
       result = SetupPsfInterpolation(interpType);
       if (result < 0)
       	return -1;
     }
-    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
+    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolators[interpType]);
     pointSourcesPresent = true;
   }
   
@@ -378,7 +378,14 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
       psfInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
       psfInterpolator_allocated = true;
       break;
+    default:
+      fprintf(stderr, "** ERROR: unrecognized PSF interpolation type!\n");
+      return -3;
   }
+  // replace any previous interpolator of the same type
+  if (psfInterpolators.count(interpolationType) > 0)
+    delete psfInterpolators[interpolationType];
+  psfInterpolators[interpolationType] = psfInterpolator;
   
   return 0;
 }
@@ -1193,7 +1200,7 @@ void ModelObject::CreateModelImage( double params[] )
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
     for (FunctionObject *funcObj : functionObjects)
       if (funcObj->IsPointSource()) {
-        funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->AddPsfInterpolator(psfInterpolators[interpolationMap[funcObj->GetInterpolationType()]]);
         funcObj->SetOversamplingScale(1);
       }
     
@@ -1284,7 +1291,7 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
   if (functionObjects[functionIndex]->IsPointSource()) {
-    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolators[interpolationMap[functionObjects[functionIndex]->GetInterpolationType()]]);
     functionObjects[functionIndex]->SetOversamplingScale(1);
   }
 
diff --git a/core/model_object.h b/core/model_object.h
index a75633e..b99e860 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -15,6 +15,7 @@
 
 #include <vector>
 #include <string>
+#include <map>
 
 #include "definitions.h"
 #include "function_object.h"
@@ -327,6 +328,8 @@ class ModelObject
     
     PsfInterpolator *psfInterpolator;
     bool  psfInterpolator_allocated;
+    // one interpolator for each interpolation type which is in use
+    map<int, PsfInterpolator *>  psfInterpolators;
     
     // stuff for ovsersampled PSF convolution
     Convolver  *psfConvolver_osamp;
-- 
2.43.0


From 3ae17ff6235c16d1480118592d98226edb1070c7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 39/51] fix: differential evolution indexed one past its arrays
 when a random draw was the end of its interval

---
 solvers/DESolver.cpp | 39 ++++++++++++++++++++++++---------------
 solvers/DESolver.h   |  1 +
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..e04a28c 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -320,7 +320,7 @@ void DESolver::Best1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -340,7 +340,7 @@ void DESolver::Rand1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -360,7 +360,7 @@ void DESolver::RandToBest1Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -380,7 +380,7 @@ void DESolver::Best2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -402,7 +402,7 @@ void DESolver::Rand2Exp( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; (RandomUniform(0.0,1.0) < probability) && (i < nDim); i++) {
@@ -424,7 +424,7 @@ void DESolver::Best1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -445,7 +445,7 @@ void DESolver::Rand1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -466,7 +466,7 @@ void DESolver::RandToBest1Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -487,7 +487,7 @@ void DESolver::Best2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -510,7 +510,7 @@ void DESolver::Rand2Bin( int candidate )
   int n;
 
   SelectSamples(candidate, &r1, &r2, &r3, &r4, &r5);
-  n = (int)RandomUniform(0.0, (double)nDim);
+  n = RandomIndex(nDim);
 
   CopyVector(trialSolution, RowVector(population, candidate));
   for (int i = 0; i < nDim; i++) {
@@ -530,31 +530,31 @@ void DESolver::SelectSamples( int candidate, int *r1, int *r2, int *r3, int *r4,
 {
   if (r1) {
     do {
-      *r1 = (int)RandomUniform(0.0, (double)nPop);
+      *r1 = RandomIndex(nPop);
     } while (*r1 == candidate);
   }
 
   if (r2) {
     do {
-      *r2 = (int)RandomUniform(0.0, (double)nPop);
+      *r2 = RandomIndex(nPop);
     } while ((*r2 == candidate) || (*r2 == *r1));
   }
 
   if (r3) {
     do {
-      *r3 = (int)RandomUniform(0.0, (double)nPop);
+      *r3 = RandomIndex(nPop);
     } while ((*r3 == candidate) || (*r3 == *r2) || (*r3 == *r1));
   }
 
   if (r4) {
     do {
-      *r4 = (int)RandomUniform(0.0, (double)nPop);
+      *r4 = RandomIndex(nPop);
     } while ((*r4 == candidate) || (*r4 == *r3) || (*r4 == *r2) || (*r4 == *r1));
   }
 
   if (r5) {
     do {
-      *r5 = (int)RandomUniform(0.0, (double)nPop);
+      *r5 = RandomIndex(nPop);
     } while ((*r5 == candidate) || (*r5 == *r4) || (*r5 == *r3)
                           || (*r5 == *r2) || (*r5 == *r1));
   }
@@ -573,6 +573,15 @@ double DESolver::RandomUniform( double minValue, double maxValue )
 }
 
 
+/// Random integer in the range 0 ... n - 1 (note that RandomUniform can return the
+/// upper end of its interval)
+int DESolver::RandomIndex( int n )
+{
+  int  index = (int)RandomUniform(0.0, (double)n);
+  return (index < n) ? index : n - 1;
+}
+
+
 /// Function added by PE: test for convergence
 /// If the last three stored objective-function values (values are stored every 10
 /// generations) are all < TOLERANCE, then we decide that we have converged.
diff --git a/solvers/DESolver.h b/solvers/DESolver.h
index 01538cc..29f7c73 100644
--- a/solvers/DESolver.h
+++ b/solvers/DESolver.h
@@ -91,6 +91,7 @@ protected:
   void SelectSamples( int candidate, int *r1, int *r2=0, int *r3=0, 
 												int *r4=0, int *r5=0 );
   double RandomUniform( double min, double max );
+  int RandomIndex( int n );
 
   int nDim;
   int nPop;
-- 
2.43.0


From 3924a799c84eb95fdd4502b8aa9fd9d19775b7d2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 40/51] fix: DESolver released its arrays with delete instead
 of delete []

---
 solvers/DESolver.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index e04a28c..ee0570a 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -79,14 +79,14 @@ DESolver::DESolver( int dim, int popSize ) :
 
 DESolver::~DESolver( )
 {
-  if (trialSolution) delete trialSolution;
-  if (bestSolution) delete bestSolution;
-  if (popEnergy) delete popEnergy;
-  if (population) delete population;
+  if (trialSolution) delete [] trialSolution;
+  if (bestSolution) delete [] bestSolution;
+  if (popEnergy) delete [] popEnergy;
+  if (population) delete [] population;
   
-  if (oldValues) delete oldValues;
-  if (minBounds) delete minBounds;
-  if (maxBounds) delete maxBounds;
+  if (oldValues) delete [] oldValues;
+  if (minBounds) delete [] minBounds;
+  if (maxBounds) delete [] maxBounds;
 
   trialSolution = bestSolution = popEnergy = population = 0;
 }
-- 
2.43.0


From 87472e3316b990bcf8a7648ab730bdacab3bb4b8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 41/51] fix: rounding could take differential-evolution samples
 outside the parameter limits

---
 solvers/DESolver.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index ee0570a..e8612a3 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -137,6 +137,9 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
         intervalSize = (max[j] - min[j])/nPop;
         p = genrand_real1();
         Element(population,i,j) = min[j] + (sampleOffset + p)*intervalSize;
+        // guard against rounding past the upper limit
+        if (Element(population,i,j) > max[j])
+          Element(population,i,j) = max[j];
       }
       popEnergy[i] = 1.0E20;
     }
@@ -233,6 +236,9 @@ int DESolver::Solve( int maxGenerations, int verbose )
           trialSolution[j] = minBounds[j] + RandomUniform(0.0,1.0)*(oldValues[j] - minBounds[j]);
         if (trialSolution[j] > maxBounds[j])
           trialSolution[j] = maxBounds[j] - RandomUniform(0.0,1.0)*(maxBounds[j] - oldValues[j]);
+        // guard against rounding past the lower limit
+        if (trialSolution[j] < minBounds[j])
+          trialSolution[j] = minBounds[j];
       }
       
       // Test our newly mutated/bred trial parameter vector
@@ -569,7 +575,8 @@ double DESolver::RandomUniform( double minValue, double maxValue )
   
   uniformRand = genrand_real1();   // generates a random number on [0,1]-real-interval
   result = minValue + uniformRand*(maxValue - minValue);
-  return result;
+  // guard against rounding past the upper limit
+  return (result > maxValue) ? maxValue : result;
 }
 
 
-- 
2.43.0


From 44c637d8d8ed8d163867f3579dc30f801dfa9c9e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 05:34:11 +0000
Subject: [PATCH 42/51] fix: differential-evolution fit returned all-zero
 parameters when no solution was found

---
 solvers/diff_evoln_fit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solvers/diff_evoln_fit.cpp b/solvers/diff_evoln_fit.cpp
index e947c80..6c78f92 100644
--- a/solvers/diff_evoln_fit.cpp
+++ b/solvers/diff_evoln_fit.cpp
@@ -158,7 +158,9 @@ int DiffEvolnFit( int nParamsTot, double *paramVector, vector<mp_par> parameterL
 
   status = solver->Solve(maxGenerations, verbose);
 
-  solver->StoreSolution(paramVector);
+  // keep the starting values if no valid solution was found
+  if (solver->Energy() < 1.0E20)
+    solver->StoreSolution(paramVector);
 
   if (solverResults != nullptr) {
     int  populationSize = solver->Population();
-- 
2.43.0


From 9c3165e3385422fd2a3d8939dcb2eccbb753d303 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 43/51] fix: Levenberg-Marquardt fits could report the fit
 statistic of a rejected step

---
 solvers/mpfit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..3f7225f 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,8 +1049,8 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
-    result->bestnorm *= result->bestnorm;
+    // fnorm corresponds to the returned parameter values (fnorm1 may be from a rejected step)
+    result->bestnorm = fnorm*fnorm;
     result->orignorm = orignorm;
     result->status   = info;
     result->niter    = iter;
-- 
2.43.0


From b7d5c774d54ed68b0ddb19e44079bb695ffe2f01 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 44/51] fix: NLopt-based fits ignored one-sided parameter
 limits

---
 solvers/nlopt_fit.cpp     | 10 ++++++----
 solvers/nmsimplex_fit.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..b83039a 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -284,10 +284,12 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
       minParamValues[i] = paramVector[i];
       maxParamValues[i] = paramVector[i];
     }
-    else if ((parameterLimits[i].limited[0] == 1) && (parameterLimits[i].limited[1] == 1)) {
-      // user specified parameter limits for this parameter
-      minParamValues[i] = parameterLimits[i].limits[0];
-      maxParamValues[i] = parameterLimits[i].limits[1];
+    else {
+      // user may have specified lower and/or upper limit for this parameter
+      if (parameterLimits[i].limited[0] == 1)
+        minParamValues[i] = parameterLimits[i].limits[0];
+      if (parameterLimits[i].limited[1] == 1)
+        maxParamValues[i] = parameterLimits[i].limits[1];
     }
   }
 
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 1fa3311..12d1189 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -187,10 +187,12 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
       minParamValues[i] = paramVector[i];
       maxParamValues[i] = paramVector[i];
     }
-    else if ((parameterLimits[i].limited[0] == 1) && (parameterLimits[i].limited[1] == 1)) {
-      // user specified parameter limits for this parameter
-      minParamValues[i] = parameterLimits[i].limits[0];
-      maxParamValues[i] = parameterLimits[i].limits[1];
+    else {
+      // user may have specified lower and/or upper limit for this parameter
+      if (parameterLimits[i].limited[0] == 1)
+        minParamValues[i] = parameterLimits[i].limits[0];
+      if (parameterLimits[i].limited[1] == 1)
+        maxParamValues[i] = parameterLimits[i].limits[1];
     }
   }
   
-- 
2.43.0


From 80a235ff4dbcf4d67eb5f19cda8439b31830086b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 45/51] fix: NLopt-based fits reported function evaluations of
 earlier fits as well

---
 solvers/nlopt_fit.cpp     | 1 +
 solvers/nmsimplex_fit.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index b83039a..cc90e77 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -318,6 +318,7 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
diff --git a/solvers/nmsimplex_fit.cpp b/solvers/nmsimplex_fit.cpp
index 12d1189..c18ecf2 100644
--- a/solvers/nmsimplex_fit.cpp
+++ b/solvers/nmsimplex_fit.cpp
@@ -222,6 +222,7 @@ int NMSimplexFit( const int nParamsTot, double *paramVector, vector<mp_par> para
   
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
+  funcCallCount = 0;
   result = nlopt_optimize(optimizer, paramVector, &finalStatisticVal);
   if (verbose >= 0) {
     string interpretedResult;
-- 
2.43.0


From 8881a8bdc9c6a789728daf8f6ab0bc2944dc9b44 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:42:46 +0000
Subject: [PATCH 46/51] fix: flux of background components was left unset by
 FindTotalFluxes

---
 core/model_object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 139bf3b..6a541c2 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2468,7 +2468,7 @@ double ModelObject::FindTotalFluxes( double params[], int xSize, int ySize,
   // Integrate over the image, once per function
   for (n = 0; n < nFunctions; n++) {
     if (functionObjects[n]->IsBackground())
-      totalComponentFlux = 0.0;
+      individualFluxes[n] = 0.0;
     else {
       if (functionObjects[n]->CanCalculateTotalFlux()) {
         totalComponentFlux = functionObjects[n]->TotalFlux();
-- 
2.43.0


From 68d8e7b8debc963981b7b7fc31438434ef1dbb35 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 47/51] fix: ModelObject1d::FinalSetupForFitting returned an
 uninitialised status

---
 profile_fitting/model_object_1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile_fitting/model_object_1d.cpp b/profile_fitting/model_object_1d.cpp
index ccdf797..0eb52ed 100644
--- a/profile_fitting/model_object_1d.cpp
+++ b/profile_fitting/model_object_1d.cpp
@@ -277,7 +277,7 @@ int ModelObject1d::AddPSFVector1D( int nPixels_psf, double *xValVector, double *
 int ModelObject1d::FinalSetupForFitting( )
 {
   int  nNonFinitePixels = 0;
-  int  returnStatus;
+  int  returnStatus = 0;
   
   // Create a default all-pixels-valid mask if no mask already exists
   if (! maskExists) {
-- 
2.43.0


From 3bddf85ca6e769a1817a123477db19f380179661 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 48/51] fix: mask of a profile was ignored when no errors were
 supplied

---
 profile_fitting/model_object_1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/profile_fitting/model_object_1d.cpp b/profile_fitting/model_object_1d.cpp
index 0eb52ed..0f70930 100644
--- a/profile_fitting/model_object_1d.cpp
+++ b/profile_fitting/model_object_1d.cpp
@@ -324,6 +324,7 @@ int ModelObject1d::FinalSetupForFitting( )
     for (int z = 0; z < nDataVals; z++) {
     	weightVector[z] = 1.0;
     }
+    weightValsSet = true;
   }
   if (CheckWeightVector())
     ApplyMask();
-- 
2.43.0


From 67fd26f4a9dbca4c0006cf02ff6c63204d2411d8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 49/51] fix: fit statistic of a profile with a PSF divided by
 zero

---
 profile_fitting/model_object_1d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profile_fitting/model_object_1d.cpp b/profile_fitting/model_object_1d.cpp
index 0f70930..015de0a 100644
--- a/profile_fitting/model_object_1d.cpp
+++ b/profile_fitting/model_object_1d.cpp
@@ -124,6 +124,8 @@ void ModelObject1d::AddDataVectors( int nDataValues, double *xValVector,
 										double *yValVector, bool magnitudeData )
 {
   nModelVals = nDataVals = nValidDataVals = nDataValues;
+  nModelColumns = nDataColumns = nDataValues;   // profile is treated as a single row
+  nModelRows = nDataRows = 1;
   modelXValues = dataXValues = xValVector;
   dataVector = yValVector;
   dataValsSet = true;
@@ -243,6 +245,10 @@ int ModelObject1d::AddPSFVector1D( int nPixels_psf, double *xValVector, double *
   // Do full setup for convolution
   // 1. Figure out extra size for model profile (PSF dimensions added to each end)
   nModelVals = nDataVals + 2*nPSFVals;
+  // single-row equivalents, used by the fit-statistic code of the base class
+  nModelColumns = nModelVals;
+  nPSFColumns = nPSFVals;
+  nPSFRows = 0;
   dataStartOffset = nPSFVals;
   // 2. Create new model vector and set dataStartOffset to nPSFVals
   if (modelVectorAllocated)
-- 
2.43.0


From 6ea7ab1c196a752c4e9465cf1f8ba297ef21b959 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 50/51] fix: bootstrap resampling of a masked profile read past
 its indices

---
 profile_fitting/model_object_1d.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profile_fitting/model_object_1d.cpp b/profile_fitting/model_object_1d.cpp
index 015de0a..005998e 100644
--- a/profile_fitting/model_object_1d.cpp
+++ b/profile_fitting/model_object_1d.cpp
@@ -459,10 +459,13 @@ void ModelObject1d::ComputeDeviates( double yResults[], double params[] )
   CreateModelImage(params);
   
   if (doBootstrap) {
-    for (int z = 0; z < nDataVals; z++) {
+    // only nValidDataVals points are resampled; any remaining deviates are zero
+    for (int z = 0; z < nValidDataVals; z++) {
       int i = bootstrapIndices[z];
       yResults[z] = weightVector[i] * (dataVector[i] - modelVector[dataStartOffset + i]);
     }
+    for (int z = nValidDataVals; z < nDataVals; z++)
+      yResults[z] = 0.0;
   } else {
     for (int z = 0; z < nDataVals; z++) {
       yResults[z] = weightVector[z] * (dataVector[z] - modelVector[dataStartOffset + z]);
-- 
2.43.0


From b0d3b3457a79f9ee811687cf92249ad55984d3fd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 06:44:59 +0000
Subject: [PATCH 51/51] fix: ModelObject1d released its convolver with free

---
 profile_fitting/model_object_1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile_fitting/model_object_1d.cpp b/profile_fitting/model_object_1d.cpp
index 005998e..a197119 100644
--- a/profile_fitting/model_object_1d.cpp
+++ b/profile_fitting/model_object_1d.cpp
@@ -795,7 +795,7 @@ ModelObject1d::~ModelObject1d()
     maskVectorAllocated = false;
   }
   if (doConvolution) {
-    free(psfConvolver);
+    delete psfConvolver;
     free(modelXValues);
     doConvolution = false;
   }
-- 
2.43.0

