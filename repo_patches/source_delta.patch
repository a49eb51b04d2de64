From e1bc600e590fa6468a14588b57554a36dc552e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 01/16] fix: make shell_quote survive quote characters and
 empty arguments

---
 code/latte/latte_system.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 4984b7c..05e55ed 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -53,13 +53,16 @@ string shell_quote(const string &argument)
   // conservative character set.  We don't use the <ctype> functions
   // because they are locale-dependent.
   std::size_t found = argument.find_first_not_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+/.");
-  if (found!=string::npos) {
+  if (argument.empty() || found!=string::npos) {
     string result;
     result.push_back('\'');
     for (string::const_iterator i = argument.begin(); i!=argument.end(); ++i) {
       if (*i == '\'') 
-	result.push_back('\\');
-      result.push_back(*i);
+	// A single-quoted string cannot contain a quote, not even
+	// after a backslash: close it, add \', and open it again.
+	result.append("'\\''");
+      else
+	result.push_back(*i);
     }
     result.push_back('\'');
     return result;
-- 
2.43.0


From af3d683ed7401e9bd86fb48ccf65341d82d5a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 02/16] fix: quote the rays file name in the hilbert-from-rays
 command line

---
 code/latte/normalize/normaliz_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/normalize/normaliz_wrapper.cpp b/code/latte/normalize/normaliz_wrapper.cpp
index 3a075c1..5467e33 100644
--- a/code/latte/normalize/normaliz_wrapper.cpp
+++ b/code/latte/normalize/normaliz_wrapper.cpp
@@ -193,7 +193,7 @@ void runHilbert_From_Rays(char *inFileName, char *outFileName, char *hilbert_fro
     strcat(command,".trivial");
   }
   strcat(command," ");
-  strcat(command,raysFileName);
+  strcat(command, shell_quote(raysFileName).c_str());
 
   callsToHilbert_From_Rays++;
   printf("Calls to hilbert-from-rays = %d\n",callsToHilbert_From_Rays);
-- 
2.43.0


From 5985f4472626389818a32eed517df1399c32dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 03/16] fix: keep the user's random seed when a
 PolytopeValuation is constructed

---
 code/latte/valuation/PolytopeValuation.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..b8d4991 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -55,7 +55,6 @@ PolytopeValuation::PolytopeValuation(Polyhedron *p, BarvinokParameters &bp) :
 	//printListCone(polytopeAsOneCone, numOfVarsOneCone);
 	//cout << "constructor end" << endl;
 
-	srand(time(0));
 }//constructor
 
 
-- 
2.43.0


From 399e0bbbdbc149b96119d3a74f7f997c9c5449c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 04/16] fix: do the division in dilatePolytopeOneCone outside
 the assertion

---
 code/latte/valuation/PolytopeValuation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index b8d4991..f818190 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -167,7 +167,8 @@ void PolytopeValuation::dilatePolytopeOneCone(const ZZ & factor)
 		//long divide(ZZ& q, const ZZ& a, const ZZ& b);
 		// if b | a, sets q = a/b and returns 1; otherwise returns 0.
 		ZZ newFactor;
-		assert(divide(newFactor, factor, v->first[numOfVarsOneCone-1]));
+		long divides = divide(newFactor, factor, v->first[numOfVarsOneCone-1]);
+		assert(divides); // the division itself must also happen when assertions are disabled.
 		v->first *= newFactor; //scalor-vector mult.
 		v->first[numOfVarsOneCone-1] = factor; //here, we lose the org. polytope.
 	}//for eacy vertex saved in the ray.
-- 
2.43.0


From 1ea886317c707045415699efd758a98b91865b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 05/16] fix: stop with an error message when the input ends
 before an expected marker

---
 code/latte/Grobner.cpp                      |  9 ++++---
 code/latte/IntegralHull.cpp                 | 10 ++++---
 code/latte/ReadingFile.cpp                  | 22 ++++++++-------
 code/latte/barvinok/Triangulation.cpp       |  4 +--
 code/latte/binarySearchIP.cpp               |  3 ++-
 code/latte/buildPolytopes/BuildPolytope.cpp | 22 +++++++--------
 code/latte/buildPolytopes/GraphMaker.cpp    |  2 +-
 code/latte/dual.cpp                         |  3 ++-
 code/latte/latte_system.cpp                 |  6 +++++
 code/latte/latte_system.h                   |  4 +++
 code/latte/print.cpp                        |  1 +
 code/latte/vertices/cdd.cpp                 | 30 ++++++++++-----------
 12 files changed, 68 insertions(+), 48 deletions(-)

diff --git a/code/latte/Grobner.cpp b/code/latte/Grobner.cpp
index 6c143c1..3d51843 100644
--- a/code/latte/Grobner.cpp
+++ b/code/latte/Grobner.cpp
@@ -95,11 +95,11 @@ void ReadGrobnerProblem(const char* filename, mat_ZZ & A, mat_ZZ & W, ZZ & bignu
   ifstream in2(filename);
   ifstream in(filename);
   strcpy(uni, "no"); 
-  while(!in2.eof()){
-    getline(in2, tmp);
+  while(getline(in2, tmp)){
     if(tmp == "universal")  strcpy(uni, "yes");
   }
-    while(tmp != "begin") getline(in, tmp);
+    while(tmp != "begin")
+      if (!getline(in, tmp)) unexpected_end_of_input("begin");
 
   in >> d >> n >> tmp;
  
@@ -110,7 +110,8 @@ void ReadGrobnerProblem(const char* filename, mat_ZZ & A, mat_ZZ & W, ZZ & bignu
     for(int j = 0; j < n; j++)
       in >> A[i][j];
 
-  while(tmp != "grobner") getline(in, tmp);
+  while(tmp != "grobner")
+    if (!getline(in, tmp)) unexpected_end_of_input("grobner");
 
   if(uni[0] == 'n')
    for(int i = 0; i < n; i++)
diff --git a/code/latte/IntegralHull.cpp b/code/latte/IntegralHull.cpp
index 24e369b..14f8dcb 100644
--- a/code/latte/IntegralHull.cpp
+++ b/code/latte/IntegralHull.cpp
@@ -594,8 +594,9 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
-  while (tmpString!="end"){ getline(in,tmpString); numOfHyperplane++;}
+  while (tmpString!="begin")
+    if (!getline(in,tmpString)) unexpected_end_of_input("begin");
+  while (tmpString!="end"){ if (!getline(in,tmpString)) unexpected_end_of_input("end"); numOfHyperplane++;}
 
   numOfHyperplane = numOfHyperplane - 2;
   // cerr << numOfHyperplane << endl;
@@ -605,7 +606,8 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
     exit(2);
   }
 
-  while (tmpString != "begin") getline(in2,tmpString);
+  while (tmpString != "begin")
+    if (!getline(in2,tmpString)) unexpected_end_of_input("begin");
   in2 >> tmpString >> tmpdim >> tmpString;
   vec_ZZ Hyperplane;
 
@@ -897,7 +899,7 @@ listVector* IntegralHull(listCone* cones,listVector* matrix, int numOfVars)
 		int	Solve_Count = 0;
 		
 		cerr << "Reading in file." << endl;	
-		while (!Cost_File.eof())
+		while (Cost_File.good())
 		{
 			for (int j = 0; j < numOfVars; j++)
 			{
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 211f6ea..3c5f719 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -184,7 +184,8 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     cerr << "Missing Check_red.out file..." << endl;
     exit(1);
   }
-  while (tmpString!="begin") getline(in3,tmpString);
+  while (tmpString!="begin")
+    if (!getline(in3,tmpString)) unexpected_end_of_input("begin");
 
   in3 >> numOfConsts2 >> numOfDims >> tmpString;
 
@@ -242,7 +243,7 @@ void CheckInputFileCDDRep1(const char *InputFile){
   in3 >> tmp;
   string tmpString;
   //  if(tmp[0] == '*')
-    while(tmpString != "begin") {getline(in2, tmpString); 
+    while(tmpString != "begin") {if (!getline(in2, tmpString)) unexpected_end_of_input("begin"); 
     if(tmpString[0] == 'l') flag3 = 1;
     //  cerr << tmpString << endl;
     counter++;}
@@ -277,7 +278,7 @@ void CheckInputFileCDDRep1(const char *InputFile){
       in4 >> tmpString2;//cerr << tmpString2 << endl;
       in4 >> tmpString2;//cerr << tmpString2 << endl;
       if(tmpString2  != "integer") flag = 1;
-      while(tmpString2 != "linearity"){ in4 >>tmpString2; } 
+      while(tmpString2 != "linearity"){ if (!(in4 >>tmpString2)) unexpected_end_of_input("linearity"); } 
       in4 >> tmp_int; //cerr << tmpString2 << " " << tmp_int << endl;
       for(int i = 0; i < tmp_int; i++) in4 >> num;
 
@@ -293,7 +294,7 @@ void CheckInputFileCDDRep1(const char *InputFile){
     
   }
 
-  while(!in.eof()) in >> tmpString;
+  while(in >> tmpString) ;
   
   //  if(tmpString  != "end") flag = 1;  
   // cerr << flag3 << endl;
@@ -366,12 +367,13 @@ void CheckInputFileCDDRep3(const char *InputFile){
   int counter = 0, dim, numOfConst, flag = 0;
   string tmpString;
  
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin")
+    if (!getline(in,tmpString)) unexpected_end_of_input("begin");
 
   in >> numOfConst >> dim >> tmpString;
 
   while (tmpString!="end") 
-    {in >> tmpString;// cerr << tmpString << endl;
+    {if (!(in >> tmpString)) unexpected_end_of_input("end");// cerr << tmpString << endl;
     counter ++;
     }
 
@@ -402,7 +404,8 @@ void CheckInputFileCDDRep4(const char *InputFile){
   string tmp;
   ZZ zztmp;
   char* tmpString = new char[200];
-  while(tmp != "begin") getline(in, tmp);
+  while(tmp != "begin")
+    if (!getline(in, tmp)) unexpected_end_of_input("begin");
   in >> zztmp;
   conv(constrains, zztmp);
   in >> zztmp;
@@ -957,13 +960,14 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
     exit(1);
   }
     while (tmpString!="begin"){
-      getline(in,tmpString);
+      if (!getline(in,tmpString)) unexpected_end_of_input("begin");
       if(tmpString[0] == 'l') f = 1;}
 
     if(f== 1){
       ifstream in2(fileName);
       strcpy(equationsPresent,"yes");
-      while (tmpString!="linearity") in2 >> tmpString;
+      while (tmpString!="linearity")
+        if (!(in2 >> tmpString)) unexpected_end_of_input("linearity");
       //  int length;
       in2 >> length;
       //     cerr << length << endl;
diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index dfcad75..b729961 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -91,7 +91,7 @@ vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
 
    string trash2;
    while(trash2 != "begin")
-     getline(IN, trash2);
+     if (!getline(IN, trash2)) unexpected_end_of_input("begin");
 
    IN >> face3 >> dim3;
 
@@ -133,7 +133,7 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
   string tmp;
   
   while(tmp != "begin")
-    getline(File3, tmp);
+    if (!getline(File3, tmp)) unexpected_end_of_input("begin");
   
   File3 >> face2 >> num;
   Result.SetDims(face2, num);
diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..5a288db 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -93,7 +93,8 @@ rationalVector* ReadLpsFile2(int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin")
+    if (!getline(in,tmpString)) unexpected_end_of_input("begin");
   in >> tmpString;
   for(int i = 0; i < numOfVars; i++)
     {
diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index 887c019..3fd4d16 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -282,13 +282,13 @@ void BuildPolytope::findDimentions()
 	string line;
 	file.open(getPolymakeFile().c_str());
 	for (getline(file, line, '\n'); line != "DIM"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("DIM");
 	file >> dim;
 	file.close();
 
 	file.open(getPolymakeFile().c_str());
 	for (getline(file, line, '\n'); line != "AMBIENT_DIM"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("AMBIENT_DIM");
 	file >> ambientDim;
 	file.close();
 
@@ -315,13 +315,13 @@ void BuildPolytope::findFacets()
 	string line;
 	file.open(getPolymakeFile().c_str());
 	for (getline(file, line, '\n'); line != "FACETS"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("FACETS");
 
 	facets.clear();
 
 	getline(file, line, '\n');
 	string term;
-	while (line != "")
+	while (file && line != "")
 	{
 		stringstream ss(line);
 		vector<mpq_class> oneFacet;
@@ -371,11 +371,11 @@ void BuildPolytope::findAffineHull()
 	string term;
 	file.open(getPolymakeFile().c_str());
 	for (getline(file, line, '\n'); line != "AFFINE_HULL"; getline(file, line, '\n'))
-			;
+		if (!file) unexpected_end_of_input("AFFINE_HULL");
 
 	getline(file, line, '\n');
 	numAffineHull = 0;
-	while (line != "")
+	while (file && line != "")
 	{
 		stringstream ss(line);
 		vector<mpq_class> oneFacet;
@@ -421,13 +421,13 @@ void BuildPolytope::findVertices()
 	file.open(getPolymakeFile().c_str());
 
 	for (getline(file, line, '\n'); line != "VERTICES"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("VERTICES");
 
 	points.clear(); //remove old points information.
 
 	getline(file, line, '\n');
 	string term;
-	while (line != "")
+	while (file && line != "")
 	{
 		stringstream ss(line);
 		vector<mpq_class> oneRay;
@@ -529,7 +529,7 @@ bool BuildPolytope::isCentered()
 	file.open(getPolymakeFile().c_str());
 
 	for (getline(file, line, '\n'); line != "CENTERED"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("CENTERED");
 
 	char ans;
 	ans = file.get();
@@ -597,7 +597,7 @@ bool BuildPolytope::isSimplicial()
 	file.open(getPolymakeFile().c_str());
 
 	for (getline(file, line, '\n'); line != "SIMPLICIAL"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("SIMPLICIAL");
 
 	char ans;
 	ans = file.get();
@@ -621,7 +621,7 @@ bool BuildPolytope::isSimple()
 	file.open(getPolymakeFile().c_str());
 
 	for (getline(file, line, '\n'); line != "SIMPLE"; getline(file, line, '\n'))
-		;
+		if (!file) unexpected_end_of_input("SIMPLE");
 
 	char ans;
 	ans = file.get();
diff --git a/code/latte/buildPolytopes/GraphMaker.cpp b/code/latte/buildPolytopes/GraphMaker.cpp
index a23194b..7f9e19c 100644
--- a/code/latte/buildPolytopes/GraphMaker.cpp
+++ b/code/latte/buildPolytopes/GraphMaker.cpp
@@ -460,7 +460,7 @@ void GraphMaker::makeYourOwnGraph()
 	{
 		cout << "Enter -1 or vertex_1 vertex_2 >> ";
 		cin >> v1;
-		if ( v1 == -1)
+		if ( !cin || v1 == -1)
 			break;
 		cin >> v2;
 
diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index ba688b5..a12282d 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -115,7 +115,8 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin")
+    if (!getline(in,tmpString)) unexpected_end_of_input("begin");
 
   in >> numOfVertices >> tmpInt >> tmpString;
 
diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 05e55ed..9f7c0f0 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -71,6 +71,12 @@ string shell_quote(const string &argument)
     return argument;
 }
 
+void unexpected_end_of_input(const char *expected)
+{
+  cerr << "Unexpected end of input while looking for `" << expected << "'." << endl;
+  exit(1);
+}
+
 void
 rename_with_error_check(const string &old_name, const string &new_name)
 {
diff --git a/code/latte/latte_system.h b/code/latte/latte_system.h
index cbe7964..ae3da26 100644
--- a/code/latte/latte_system.h
+++ b/code/latte/latte_system.h
@@ -38,6 +38,10 @@ std::string shell_quote(const std::string &argument);
 void
 rename_with_error_check(const std::string &old_name, const std::string &new_name);
 
+// Report that the input ended before EXPECTED was found, and exit the
+// program.
+void unexpected_end_of_input(const char *expected);
+
 // Functions for storing intermediate data in a secure temporary
 // directory.  (More importantly, different runs of LattE are isolated
 // from each other.)  The  function `temporary_directory_name' returns
diff --git a/code/latte/print.cpp b/code/latte/print.cpp
index 5a15406..25ec94c 100644
--- a/code/latte/print.cpp
+++ b/code/latte/print.cpp
@@ -292,6 +292,7 @@ readConeFromFile(istream &in)
   {
 	  in >> oneTerm;
 	  skip_space(in);
+	  if (!in.good()) return NULL;
 	  elements.push_back(oneTerm);
   }
 
diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 77edb13..3e9393f 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -222,7 +222,7 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	int x, y;
 	string tmpString;
 	while (tmpString != "begin")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 	OUT << "H-representation" << endl;
 	OUT << "begin" << endl;
 	in >> x >> y;
@@ -230,7 +230,7 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	OUT << x << " " << y << " integer" << endl;
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("end");
 		OUT << tmpString << endl;
 	}
 
@@ -253,23 +253,23 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	int counter = 0;
 	string tmpString;
 	while (tmpString != "begin")
-		getline(in2, tmpString);
+	  if (!getline(in2, tmpString)) unexpected_end_of_input("begin");
 	getline(in2, tmpString);
 	while (tmpString != "end")
 	{
-		getline(in2, tmpString);
+		if (!getline(in2, tmpString)) unexpected_end_of_input("end");
 		counter++;
 	}
 	counter--;
 	while (tmpString != "begin")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
 	getline(in, tmpString);
 	OUT << counter << " " << numOfVars << " rational" << endl;
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("end");
 		OUT << tmpString << endl;
 	}
 
@@ -422,7 +422,7 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 	in >> tmpString;
 	for (int i = 0; i < numOfVars; i++)
 	{
@@ -522,7 +522,7 @@ listCone* readCddExtFile(int &numOfVars)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 
 	in >> numOfVertices >> numOfVars >> tmpString;
 
@@ -546,7 +546,7 @@ listCone* readCddExtFile(int &numOfVars)
 		in.get(read);
 		//cout << tmpString << endl;
 
-		while (((read == '\n' || read == '\r') || read == ' ') || read == '\t')
+		while (in && (((read == '\n' || read == '\r') || read == ' ') || read == '\t'))
 		{
 			in.get(read);
 			if (read == '0')
@@ -556,7 +556,7 @@ listCone* readCddExtFile(int &numOfVars)
 			}
 		}
 
-		while (read != '\n' && read != '\r')
+		while (in && read != '\n' && read != '\r')
 		{
 			if (read == '/')
 				flag = 1;
@@ -648,7 +648,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 
 	in >> numOfVertices;
 	getline(in, tmpString);
@@ -741,13 +741,13 @@ void CreatExtEadFile()
 	}
 
 	while (tmpString != "end")
-		getline(in, tmpString);
+	  if (!getline(in, tmpString)) unexpected_end_of_input("end");
 	getline(in, tmpString);
 
 	ofstream outExt("latte_cdd.ext");
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("end");
 		outExt << tmpString << endl;
 	}
 	getline(in, tmpString);
@@ -755,7 +755,7 @@ void CreatExtEadFile()
 	ofstream outEad("latte_cdd.ead");
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("end");
 		outEad << tmpString << endl;
 	}
 
@@ -786,7 +786,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 
 	while (tmpString != "begin")
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 		counter++;
 		if (counter > 10)
 		{
-- 
2.43.0


From ef2b5b07317a3c180350f3598d7ee6dbe4bb594a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 06/16] fix: report a zero denominator instead of replacing it
 by one

---
 code/latte/rational.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index 678561a..e1446b3 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -29,6 +29,7 @@
 #include <string>
 #include <sstream>
 #include "rational.h"
+#include "LattException.h"
 /* ----------------------------------------------------------------- */
 rationalVector::rationalVector(int dimension)
 {
@@ -201,10 +202,7 @@ void RationalNTL::canonicalize()
 		numerator *= -1;
 	}//make denominator positive.
 	else if (denominator == 0) 
-	{
-		denominator = 1;
-		return;
-	}
+		THROW_LATTE_MSG( LattException::de_divisionByZero, 1, "a rational number has a zero denominator");
 
 	ZZ gcd = GCD(numerator, denominator); //GCD(numerator, denominator);
 
-- 
2.43.0


From bd0f26e4fcaa69312d4cd53d309bd0bc1c4691d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 07/16] fix: RationalNTL operations are right when an operand
 is part of the object itself

---
 code/latte/rational.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index e1446b3..c36560a 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -223,9 +223,10 @@ void RationalNTL::canonicalize()
 RationalNTL & RationalNTL::add(const ZZ &num, const ZZ& denom)
 {
 
-	numerator = numerator * denom + num * denominator;
-	denominator *= denom;
 	assert(denom != 0);
+	ZZ newDenominator = denominator * denom; //denom may be our own numerator.
+	numerator = numerator * denom + num * denominator;
+	denominator = newDenominator;
 	canonicalize();
 	return *this;
 }//add
@@ -266,8 +267,9 @@ RationalNTL & RationalNTL::div(const ZZ & rhs)
 
 RationalNTL & RationalNTL::div(const RationalNTL & rhs)
 {
+	ZZ newDenominator = denominator * rhs.numerator; //rhs may be this object.
 	numerator *= rhs.denominator;
-	denominator *= rhs.numerator;
+	denominator = newDenominator;
 	canonicalize();
 	return *this;
 }
@@ -298,8 +300,9 @@ const ZZ & RationalNTL::getDenominator() const
 
 RationalNTL & RationalNTL::mult(const ZZ &num, const ZZ &denum)
 {
+	ZZ newDenominator = denominator * denum; //denum may be our own numerator.
 	numerator *= num;
-	denominator *= denum;
+	denominator = newDenominator;
 	canonicalize();
 	return *this;
 }
-- 
2.43.0


From 31d80905dd70f711f698e86315c735189cc8d04c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 08/16] fix: bring rational numbers that are read or built from
 two integers into canonical form

---
 code/latte/ReadLatteStyle.cpp                        | 5 +++++
 code/latte/buildPolytopes/BuildPolytope.cpp          | 8 +++++++-
 code/latte/buildPolytopes/BuildRandomPolytope.cpp    | 3 +++
 code/latte/ehrhart3.cpp                              | 6 ++++++
 code/latte/interpolation/PolynomialInterpolation.cpp | 4 +++-
 5 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..0ebee61 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -103,6 +103,11 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		for (j = 0; j < numOfVars; j++) {
 			f >> x;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
+			if (x.get_den() == 0) {
+				cerr << "Zero denominator in input file " << fileName << "." << endl;
+				exit(1);
+			}
+			x.canonicalize();
 			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
 		}
 	}
diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index 3fd4d16..d7e63da 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -330,6 +330,7 @@ void BuildPolytope::findFacets()
 		{
 			ss >> term;
 			oneFacet.push_back(mpq_class(term));
+			oneFacet.back().canonicalize();
 		}//for k
 		facets.push_back(oneFacet);//hyperplane has rational coeffs.
 		getline(file, line, '\n');
@@ -384,6 +385,7 @@ void BuildPolytope::findAffineHull()
 		{
 			ss >> term;
 			oneFacet.push_back(mpq_class(term));
+			oneFacet.back().canonicalize();
 		}//for k
 		facets.push_back(oneFacet);
 		numAffineHull += 1;
@@ -436,6 +438,7 @@ void BuildPolytope::findVertices()
 		{
 			ss >> term;
 			oneRay.push_back(mpq_class(term));
+			oneRay.back().canonicalize();
 		}//for k
 		points.push_back(oneRay);//points are rational.
 		getline(file, line, '\n');
@@ -764,7 +767,10 @@ void BuildPolytope::forDebugging()
 			if ( integerPoints )
 				onePoint.push_back(mpq_class(rand()%100,1));
 			else
-				onePoint.push_back(mpq_class(rand()%100, rand()%25));
+			{
+				onePoint.push_back(mpq_class(rand()%100, rand()%25 + 1));
+				onePoint.back().canonicalize();
+			}
 		points.push_back(onePoint);
 	}
 }
diff --git a/code/latte/buildPolytopes/BuildRandomPolytope.cpp b/code/latte/buildPolytopes/BuildRandomPolytope.cpp
index e92ee57..ec55abb 100644
--- a/code/latte/buildPolytopes/BuildRandomPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildRandomPolytope.cpp
@@ -43,7 +43,10 @@ void BuildRandomPolytope::makePoints(int ambient_dim, int numberPoints)
 			if ( integerPoints == true)
 				onePoint[j] = mpq_class(rand()%_maxInteger, 1);
 			else
+			{
 				onePoint[j] = mpq_class(rand()%_maxInteger, (rand()%_maxInteger) +1);
+				onePoint[j].canonicalize();
+			}
 
 			if ( rand() < RAND_MAX * _probNegative)
 				onePoint[j] *= -1;//make negative.
diff --git a/code/latte/ehrhart3.cpp b/code/latte/ehrhart3.cpp
index 184d1ac..f10f65c 100644
--- a/code/latte/ehrhart3.cpp
+++ b/code/latte/ehrhart3.cpp
@@ -85,6 +85,12 @@ int main(int argc, char *argv[]){
 	//cout << deg << endl;
 	PolynomialInterpolation p(deg);
 	while(cin >> temp){
+		if (temp.get_den() == 0)
+		{
+			cerr << "ehrhart3:: zero denominator in the input" << endl;
+			exit(1);
+		}
+		temp.canonicalize();
 		//cout << "adding point " << i << ", " << temp << endl;
 		p.addPoint(i++, temp);
 	}
diff --git a/code/latte/interpolation/PolynomialInterpolation.cpp b/code/latte/interpolation/PolynomialInterpolation.cpp
index 2bcf15f..d4d7fba 100644
--- a/code/latte/interpolation/PolynomialInterpolation.cpp
+++ b/code/latte/interpolation/PolynomialInterpolation.cpp
@@ -139,7 +139,9 @@ void PolynomialInterpolation::GE()
             exit(1);
         }
         
-        timesRow(perfectRow, mpq_class(matrix[perfectRow][currentColumn].get_den(), matrix[perfectRow][currentColumn].get_num()));
+        mpq_class inverse(matrix[perfectRow][currentColumn].get_den(), matrix[perfectRow][currentColumn].get_num());
+        inverse.canonicalize();
+        timesRow(perfectRow, inverse);
 
         if (  matrix[perfectRow][currentColumn] != 1)
         {
-- 
2.43.0


From 6ea27ba3432f3669e41c426b412501b50d574157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 09/16] fix: rationalVector::scalarMultiplication and set_entry
 are right when an argument is an entry of the vector

---
 code/latte/rational.cpp | 6 ++++--
 code/latte/rational.h   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/code/latte/rational.cpp b/code/latte/rational.cpp
index c36560a..2690dac 100644
--- a/code/latte/rational.cpp
+++ b/code/latte/rational.cpp
@@ -85,10 +85,12 @@ rationalVector::rationalVector(const vector<RationalNTL> & rational)
  */
 void rationalVector::scalarMultiplication(const ZZ &numer, const ZZ & denom)
 {
+	// numer or denom may be an entry of this vector.
+	const ZZ numerFactor(numer), denomFactor(denom);
 	for (int i = 0; i < denominator.length(); ++i)
 	{
-		enumerator[i] *= numer;
-		denominator[i] *= denom;
+		enumerator[i] *= numerFactor;
+		denominator[i] *= denomFactor;
 	}
 	computed_integer_scale = false;
 	canonicalizeRationalVector(this, enumerator.length()); //this function will also compute the integer scale.
diff --git a/code/latte/rational.h b/code/latte/rational.h
index 0faabc0..40f9081 100644
--- a/code/latte/rational.h
+++ b/code/latte/rational.h
@@ -121,8 +121,9 @@ public:
 	void scalarMultiplication(const ZZ &numer, const ZZ & denom);
 	void set_entry(int i, const ZZ &numer, const ZZ &denom, bool lazy = false)
 	{
+		const ZZ newDenominator(denom); // denom may be enumerator[i]
 		enumerator[i] = numer;
-		denominator[i] = denom;
+		denominator[i] = newDenominator;
 		if (lazy)
 			computed_integer_scale = false;
 		else
-- 
2.43.0


From 41689bfa9dd121d37334619fb7db9520d48514e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:06 +0000
Subject: [PATCH 10/16] fix: stop with an error when an input or helper file
 ends early or holds no number

Matrix, cone, integrand and helper-output readers kept going with default or
leftover values when an extraction failed.
---
 code/latte/CheckEmpty.cpp                     |  1 +
 code/latte/Grobner.cpp                        |  7 ++++
 code/latte/IntegralHull.cpp                   |  2 ++
 code/latte/ReadingFile.cpp                    | 12 +++++++
 code/latte/barvinok/Triangulation.cpp         |  6 ++++
 code/latte/binarySearchIP.cpp                 |  4 +++
 code/latte/buildPolytopes/BuildPolytope.cpp   | 13 ++++---
 code/latte/convertCDD_ine_to_latte.cpp        |  5 ++-
 code/latte/dual.cpp                           |  2 ++
 code/latte/ehrhart.cpp                        |  1 +
 code/latte/latte_system.cpp                   |  2 +-
 code/latte/maximize.cpp                       |  1 +
 code/latte/minimize.cpp                       |  1 +
 code/latte/normalize/normaliz_wrapper.cpp     | 31 ++++++++--------
 code/latte/print.cpp                          | 35 ++++++++++++-------
 code/latte/ramon.cpp                          |  3 ++
 code/latte/top-knapsack/Driver.cpp            | 10 ++++++
 .../triangulation/TriangulationWithTOPCOM.cpp |  4 +++
 .../triangulation/test-triangulation.cpp      |  2 +-
 code/latte/valuation/valuation.cpp            | 10 ++++++
 code/latte/vertices/cdd.cpp                   | 21 ++++++++++-
 21 files changed, 138 insertions(+), 35 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..e0c765c 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -97,6 +97,7 @@ void CheckEmpty(const char * Filename){
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
  
  for(int i = 0; i < numOfEqu; i++) in >> equs[i];}
+ if (!in) unexpected_end_of_input("the matrix");
  // for(int i = 0; i < numOfEqu; i++) cerr << equs[i] << endl;
  /*  if(max[0] == 'y') 
       for(int i = 0; i < numOfDims - 1; i++) in >> cost[i]; */
diff --git a/code/latte/Grobner.cpp b/code/latte/Grobner.cpp
index 3d51843..a581e97 100644
--- a/code/latte/Grobner.cpp
+++ b/code/latte/Grobner.cpp
@@ -76,6 +76,7 @@ void ReadGrobnerProblem(const char* filename, mat_ZZ & A, mat_ZZ & W, ZZ & bignu
   strcpy(uni, "no");
   string tmp;
   getline(in2, tmp);
+  if (!in2) unexpected_end_of_input("the matrix dimensions");
   if(tmp == "universal") strcpy(uni, "yes");
   if(tmp == "universal") getline(in, tmp); 
   in >> d >> n;
@@ -89,6 +90,7 @@ void ReadGrobnerProblem(const char* filename, mat_ZZ & A, mat_ZZ & W, ZZ & bignu
    for(int i = 0; i < n; i++)
     for(int j = 0; j < n; j++)
       in >> W[i][j];
+  if (!in) unexpected_end_of_input("the matrix");
   }
   else{
     string tmp, universal;
@@ -117,6 +119,7 @@ void ReadGrobnerProblem(const char* filename, mat_ZZ & A, mat_ZZ & W, ZZ & bignu
    for(int i = 0; i < n; i++)
     for(int j = 0; j < n; j++)
       {in >> W[i][j];}
+  if (!in) unexpected_end_of_input("the matrix");
   }
   mat_ZZ B;
   B = transpose(A);
@@ -182,6 +185,7 @@ void readLatteGrobProblem(const char *fileName, listVector **equations,
   if(grobner[0] == 'y') strcpy(equationsPresent, "yes");
   in >> numOfVectors;
   in >> (*numOfVars);
+  if (!in) unexpected_end_of_input("the matrix dimensions");
 
   if((dual[0] == 'y')&&(equationsPresent[0] == 'n')) *numOfVars = *numOfVars+1;
 
@@ -195,6 +199,7 @@ void readLatteGrobProblem(const char *fileName, listVector **equations,
     for(i = 0; i < dim; i++)
       for(j = 0; j < row; j++) in2 >> Matrix[i][j];
     in2 >> number;
+    if (!in2) unexpected_end_of_input("the matrix");
   }
 
   if(grobner[0] == 'y'){
@@ -338,6 +343,7 @@ void readLatteGrobProblem(const char *fileName, listVector **equations,
   }
 
   }
+  if (!in) unexpected_end_of_input("the matrix");
   if (equationsPresent[0]=='n') {
     (*inequalities)=basis;
     (*equations)=0;
@@ -350,6 +356,7 @@ void readLatteGrobProblem(const char *fileName, listVector **equations,
     indexEquations=createVector(numOfEquations);
 
     for (i=0; i<numOfEquations; i++) in >> indexEquations[i];
+    if (!in) unexpected_end_of_input("the equation indices");
     cerr << "\nEquation indices: ";
     printVectorToFile(cerr, indexEquations,numOfEquations);
 
diff --git a/code/latte/IntegralHull.cpp b/code/latte/IntegralHull.cpp
index 14f8dcb..76574e8 100644
--- a/code/latte/IntegralHull.cpp
+++ b/code/latte/IntegralHull.cpp
@@ -609,6 +609,7 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
   while (tmpString != "begin")
     if (!getline(in2,tmpString)) unexpected_end_of_input("begin");
   in2 >> tmpString >> tmpdim >> tmpString;
+  if (!in2) unexpected_end_of_input("the matrix dimensions");
   vec_ZZ Hyperplane;
 
  basis = createListVector(createVector(numOfVars));
@@ -618,6 +619,7 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
     Hyperplane = createVector(numOfVars); in2 >> dummy; 
     for (int j = 0; j < (numOfVars); j++){ in2 >> Hyperplane[j];
                                         Hyperplane[j] = - Hyperplane[j];} 
+    if (!in2) unexpected_end_of_input("the inequalities");
     if(!IsZero(Hyperplane)){
        endBasis->rest = createListVector(Hyperplane);
        endBasis = endBasis->rest;
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 3c5f719..3e5304f 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -76,6 +76,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   ifstream in(Filename.c_str());
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
+  if (!in) unexpected_end_of_input("the matrix dimensions");
   //  cerr << numOfConsts << " " << numOfDims << endl; 
   int equs[numOfConsts];
   //ZZ cost[numOfDims - 1];
@@ -93,6 +94,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
  
  for(int i = 0; i < numOfEqu; i++) in >> equs[i];}
+ if (!in) unexpected_end_of_input("the matrix");
  
  if(dil[0] == 'y')
   for(int i = 0; i < numOfConsts; i++)
@@ -163,6 +165,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     }
   }
   in2 >> tmpString;
+  if (!in2) unexpected_end_of_input("begin");
   if(tmpString == "linearity")
     { 
       in2 >> numOfEqu2; 
@@ -173,6 +176,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
 	in2 >> NewIndex[i];
 	//  cerr << NewIndex[i];
       }
+      if (!in2) unexpected_end_of_input("the linearity indices");
       
   }
     in2.close();
@@ -194,6 +198,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     for(int i = 0; i < numOfConsts2; i++)
       for(int j = 0; j < numOfDims; j++){
 	in3 >> newEnt[i][j]; }
+    if (!in3) unexpected_end_of_input("the matrix");
 
     // Don't mess around in the directory of the input files.
     // Put temporary files in the current directory.
@@ -639,6 +644,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
   if(grobner[0] == 'y') strcpy(equationsPresent, "yes");
   in >> numOfVectors;
   in >> (*numOfVars); 
+  if (!in) unexpected_end_of_input("the matrix dimensions");
   if(Vrep[0] == 'n'){
   if((dual[0] == 'y')&&(equationsPresent[0] == 'n')) *numOfVars = *numOfVars+1;
 
@@ -652,6 +658,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
     for(i = 0; i < dim; i++)
       for(j = 0; j < row; j++) in2 >> Matrix[i][j];
     in2 >> number;
+    if (!in2) unexpected_end_of_input("the matrix");
   }
   // if(max[0] == 'y') cost.SetLength(*numOfVars - 1);
   if(grobner[0] == 'y'){
@@ -807,6 +814,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
   }
 
   }
+  if (!in) unexpected_end_of_input("the matrix");
   if (equationsPresent[0]=='n') {
     (*inequalities)=basis;
     (*equations)=0;
@@ -819,6 +827,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
     indexEquations=createVector(numOfEquations);
 
     for (i=0; i<numOfEquations; i++) in >> indexEquations[i];
+    if (!in) unexpected_end_of_input("the equation indices");
 #if 0
     cerr << "\nEquation indices: ";
     printVectorToFile(cerr,indexEquations,numOfEquations);
@@ -973,9 +982,11 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
       //     cerr << length << endl;
       indexEquations.SetLength(length);
       for(i = 0; i < length; i++) in2 >> indexEquations[i];
+      if (!in2) unexpected_end_of_input("the equation indices");
     }
   in >> numOfVectors;
   in >> (*numOfVars) >> tmpString;
+  if (!in) unexpected_end_of_input("the matrix dimensions");
   if((dual[0] == 'y')&&(equationsPresent[0] == 'n')) *numOfVars = *numOfVars+1;
   int oldNumOfVars = 0;
   if(grobner[0] == 'y'){
@@ -1099,6 +1110,7 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
   }
 
   }
+  if (!in) unexpected_end_of_input("the matrix");
   if (equationsPresent[0]=='n') {
     (*inequalities)=basis;
     (*equations)=0;
diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index b729961..c857bec 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -94,6 +94,7 @@ vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
      if (!getline(IN, trash2)) unexpected_end_of_input("begin");
 
    IN >> face3 >> dim3;
+   if (!IN) unexpected_end_of_input("the matrix dimensions");
 
    vec_ZZ neg;
    neg.SetLength(face3);
@@ -113,6 +114,7 @@ vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
        if(trash2[0] == '0')
          neg[i] = 2;
    }
+   if (!IN) unexpected_end_of_input("the inequalities");
 
   return(neg); 
 }
@@ -136,6 +138,7 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
     if (!getline(File3, tmp)) unexpected_end_of_input("begin");
   
   File3 >> face2 >> num;
+  if (!File3) unexpected_end_of_input("the incidence dimensions");
   Result.SetDims(face2, num);
   numOfPoints.SetLength(face2);
   char trash;
@@ -152,8 +155,10 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
   int k = 0;
   for(int i = 0; i < face2; i++){
     File3 >> k >> numOfPoints[i] >> trash;
+    if (!File3) unexpected_end_of_input("the incidences");
     if(numOfPoints[i] >= 0) {
       for(int j = 0; j < numOfPoints[i]; j++) { File3 >> Result[i][j]; }
+      if (!File3) unexpected_end_of_input("the incidences");
     }
     else { 
       numOfPoints[i] = -numOfPoints[i];
@@ -161,6 +166,7 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
       int j = 0;
       for (int n = 0; n < num - numOfPoints[i]; ++n) {
           File3 >> k;
+          if (!File3) unexpected_end_of_input("the incidences");
           while (r < k) {
             Result[i][j++] = r++;
           }
diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 5a288db..51516f4 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -96,6 +96,7 @@ rationalVector* ReadLpsFile2(int numOfVars)
   while (tmpString!="begin")
     if (!getline(in,tmpString)) unexpected_end_of_input("begin");
   in >> tmpString;
+  if (!in) unexpected_end_of_input("the optimal solution");
   for(int i = 0; i < numOfVars; i++)
     {
       in >> tmpString >> tmpString;
@@ -103,6 +104,7 @@ rationalVector* ReadLpsFile2(int numOfVars)
       x=0;
       y=0;
       ReadCDD(in,x,y);
+      if (!in) unexpected_end_of_input("the optimal solution");
       OptVector->set_entry(i, x, y);
 
     }
@@ -170,6 +172,7 @@ ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs,
 
   ifstream in("numOfLatticePoints");
   in >> NumOfLatticePoints;
+  if (!in) unexpected_end_of_input("the number of lattice points");
   system_with_error_check("rm -f latte_BS*");
 
   return NumOfLatticePoints;
@@ -225,6 +228,7 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
   ifstream in("numOfLatticePoints");
   in >> NumOfLatticePoints;
+  if (!in) unexpected_end_of_input("the number of lattice points");
 
   ifstream in2("numOfUnimodularCones");
   ZZ numOfUniCones;
diff --git a/code/latte/buildPolytopes/BuildPolytope.cpp b/code/latte/buildPolytopes/BuildPolytope.cpp
index d7e63da..6ffff41 100644
--- a/code/latte/buildPolytopes/BuildPolytope.cpp
+++ b/code/latte/buildPolytopes/BuildPolytope.cpp
@@ -63,7 +63,7 @@ void BuildPolytope::centerPolytope()
 	//but here, it does not like it when the output and input files are the same.
 	//Hence the ".temp" file that is made and renamed.
 	system_with_error_check(string("center ") + shell_quote(getPolymakeFile()) + ".temp " + shell_quote(getPolymakeFile()));
-	rename((string(getPolymakeFile()+".temp ")).c_str(), getPolymakeFile().c_str());
+	rename_with_error_check(getPolymakeFile() + ".temp", getPolymakeFile());
 	points.clear();
 	facets.clear();
 	dualFacets.clear();
@@ -284,12 +284,14 @@ void BuildPolytope::findDimentions()
 	for (getline(file, line, '\n'); line != "DIM"; getline(file, line, '\n'))
 		if (!file) unexpected_end_of_input("DIM");
 	file >> dim;
+	if (!file) unexpected_end_of_input("DIM");
 	file.close();
 
 	file.open(getPolymakeFile().c_str());
 	for (getline(file, line, '\n'); line != "AMBIENT_DIM"; getline(file, line, '\n'))
 		if (!file) unexpected_end_of_input("AMBIENT_DIM");
 	file >> ambientDim;
+	if (!file) unexpected_end_of_input("AMBIENT_DIM");
 	file.close();
 
 	assert(0 < dim && dim <= ambientDim);
@@ -328,7 +330,7 @@ void BuildPolytope::findFacets()
 
 		for (int k = 0; k < ambientDim + 1; ++k)
 		{
-			ss >> term;
+			if (!(ss >> term)) unexpected_end_of_input("a coordinate");
 			oneFacet.push_back(mpq_class(term));
 			oneFacet.back().canonicalize();
 		}//for k
@@ -383,7 +385,7 @@ void BuildPolytope::findAffineHull()
 
 		for (int k = 0; k < ambientDim + 1; ++k)
 		{
-			ss >> term;
+			if (!(ss >> term)) unexpected_end_of_input("a coordinate");
 			oneFacet.push_back(mpq_class(term));
 			oneFacet.back().canonicalize();
 		}//for k
@@ -436,7 +438,7 @@ void BuildPolytope::findVertices()
 
 		for (int k = 0; k < ambientDim + 1; ++k)
 		{
-			ss >> term;
+			if (!(ss >> term)) unexpected_end_of_input("a coordinate");
 			oneRay.push_back(mpq_class(term));
 			oneRay.back().canonicalize();
 		}//for k
@@ -536,6 +538,7 @@ bool BuildPolytope::isCentered()
 
 	char ans;
 	ans = file.get();
+	if (!file) unexpected_end_of_input("CENTERED");
 	file.close();
 
 	return (ans == '1');
@@ -604,6 +607,7 @@ bool BuildPolytope::isSimplicial()
 
 	char ans;
 	ans = file.get();
+	if (!file) unexpected_end_of_input("SIMPLICIAL");
 	file.close();
 	
 	return (ans == '1');
@@ -628,6 +632,7 @@ bool BuildPolytope::isSimple()
 
 	char ans;
 	ans = file.get();
+	if (!file) unexpected_end_of_input("SIMPLE");
 	file.close();
 
 	return (ans == '1');
diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..6f95866 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -11,6 +11,7 @@
 #include <cassert>
 #include <vector>
 #include "rational.h"
+#include "latte_system.h"
 #include <NTL/ZZ.h>
 
 
@@ -38,7 +39,9 @@ int main( int argc, const char* argv[] )
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
+	if (!input) unexpected_end_of_input("the matrix dimensions");
 	input.ignore(250, '\n');
+	if (!input) unexpected_end_of_input("the matrix");
 	output << numRows << " " << ambDim << endl;
 	hRep.resize(ambDim);
 
@@ -48,7 +51,7 @@ int main( int argc, const char* argv[] )
 		for(int k  = 0; k < ambDim; ++k)
 		{
 			string temp;
-			input >> temp;
+			if (!(input >> temp)) unexpected_end_of_input("a matrix entry");
 			hRep[k] = RationalNTL(temp);
 			RationalNTL product;
 			lcmDenom = (hRep[k].getDenominator() * lcmDenom)/ (GCD(lcmDenom, hRep[k].getDenominator()));
diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index a12282d..65fc3b9 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -119,6 +119,7 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     if (!getline(in,tmpString)) unexpected_end_of_input("begin");
 
   in >> numOfVertices >> tmpInt >> tmpString;
+  if (!in) unexpected_end_of_input("the matrix dimensions");
 
   facets=createListVector(createVector(numOfVars));
   endFacets=facets;
@@ -129,6 +130,7 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       x=0;
       y=0;
       ReadCDD(in,x,y);
+      if (!in) unexpected_end_of_input("a matrix entry");
       if (j>0) {
 	w->set_entry(j-1, x, y, true /* avoid recomputation of
 					integer scale */);
diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..4cd88c4 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -273,6 +273,7 @@ int main(int argc, char *argv[]) {
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
       INCost >> cost[i]; 
+    if (!INCost) unexpected_end_of_input("the cost vector");
   }
   //strcpy (fileName,"stdin");
   
diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 9f7c0f0..12a6229 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -73,7 +73,7 @@ string shell_quote(const string &argument)
 
 void unexpected_end_of_input(const char *expected)
 {
-  cerr << "Unexpected end of input while looking for `" << expected << "'." << endl;
+  cerr << "Unexpected end of input, or malformed input, while looking for `" << expected << "'." << endl;
   exit(1);
 }
 
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..ae6c924 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -213,6 +213,7 @@ int main(int argc, char *argv[]) {
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
       INCost >> cost[i]; 
+    if (!INCost) unexpected_end_of_input("the cost vector");
   }
   //strcpy (fileName,"stdin");
   
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..73eebd9 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -213,6 +213,7 @@ int main(int argc, char *argv[]) {
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
       INCost >> cost[i]; 
+    if (!INCost) unexpected_end_of_input("the cost vector");
   }
   //strcpy (fileName,"stdin");
   
diff --git a/code/latte/normalize/normaliz_wrapper.cpp b/code/latte/normalize/normaliz_wrapper.cpp
index 5467e33..b742ae4 100644
--- a/code/latte/normalize/normaliz_wrapper.cpp
+++ b/code/latte/normalize/normaliz_wrapper.cpp
@@ -52,6 +52,13 @@ int normalize_commandline(char *command);
 listVector* candidates;
 int callsToHilbert_From_Rays;
 
+/* ----------------------------------------------------------------- */
+static void readNumber(FILE *in, int *number, const char *fileName) {
+  if (fscanf(in,"%d",number) != 1) {
+    fprintf(stderr,"File \"%s\" ends early or contains a non-number!\n",fileName);
+    exit(1);
+  }
+}
 /* ----------------------------------------------------------------- */
 listVector* myReadListVector(int *numOfVars, char *fileName) {
   int numOfVectors;
@@ -61,12 +68,12 @@ listVector* myReadListVector(int *numOfVars, char *fileName) {
 
   setbuf(stdout,0);
   if (!(in = fopen(fileName,"r"))) {
-    printf("File \"%s\" not found for reading!\n",fileName);
-    return(0);
+    fprintf(stderr,"File \"%s\" not found for reading!\n",fileName);
+    exit(1);
   }
 
-  fscanf(in,"%d",&numOfVectors);
-  fscanf(in,"%d",numOfVars);
+  readNumber(in,&numOfVectors,fileName);
+  readNumber(in,numOfVars,fileName);
 
   if (numOfVectors==0) {
     fclose(in);
@@ -74,13 +81,13 @@ listVector* myReadListVector(int *numOfVars, char *fileName) {
   }
 
   b=createVector(*numOfVars);
-  for (int j=0; j<(*numOfVars); j++) fscanf(in,"%d",&b[j]);
+  for (int j=0; j<(*numOfVars); j++) readNumber(in,&b[j],fileName);
   basis = createListVector(b);
   endBasis = basis;
 
   for (int i=1; i<numOfVectors; i++) {
     b=createVector(*numOfVars);
-    for (int j=0; j<(*numOfVars); j++) fscanf(in,"%d",&b[j]);
+    for (int j=0; j<(*numOfVars); j++) readNumber(in,&b[j],fileName);
     endBasis = updateBasis(createListVector(b), endBasis);
   }
   fclose(in);
@@ -92,8 +99,8 @@ void myPrintListVectorToFile(char* fileName, listVector* basis, int numOfVars) {
   FILE* out;
 
   if (!(out = fopen(fileName,"w"))) {
-    printf("Error opening output file!");
-    exit (0);
+    fprintf(stderr,"Error opening output file!\n");
+    exit (1);
   }
   if (basis==0) {
     fprintf(out,"0 %d\n",numOfVars);
@@ -245,13 +252,7 @@ void checkCones(char *simplicialConesFileName,char *checkFileName,
     /*    printf("callsToHilbert_From_Rays = %d\n",callsToHilbert_From_Rays); */
     strcat(command," >out.tmp");
     /*    printf("%s\n",command); */
-    do {
-      retval = system(command);
-      /*      printf("retval = %d\n",retval); */
-      if (retval != 0) {
-	fprintf(stderr, "No license, wtf?\n");
-      }
-    } while (retval != 0);
+    retval = system(command);
   } 
   else
     retval = normalize_commandline(command);
diff --git a/code/latte/print.cpp b/code/latte/print.cpp
index 25ec94c..b3c5394 100644
--- a/code/latte/print.cpp
+++ b/code/latte/print.cpp
@@ -225,6 +225,13 @@ skip_space(istream &in)
   }
 }
 
+static void
+malformed_cone()
+{
+  cerr << "Unexpected end of file or malformed data in a cone file." << endl;
+  exit(1);
+}
+
 static listVector *
 readListVector(istream &in)
 {
@@ -235,11 +242,11 @@ readListVector(istream &in)
     skip_space(in);
     if (in.peek() != '[') break;
     in >> v;
-    if (in.good()) {
-      *end_p = new listVector(v);
-      end_p = &(*end_p)->rest;
-    }
+    if (!in) malformed_cone();
+    *end_p = new listVector(v);
+    end_p = &(*end_p)->rest;
   }
+  if (result == NULL) malformed_cone();
   if (result->rest == NULL
       && result->first.length() == 0) {
     /* Read [], which is meant to designate an empty list,
@@ -275,15 +282,15 @@ readConeFromFile(istream &in)
 {
   if (!look_for(in, "Cone.")) return NULL;
   listCone *cone = createListCone();
-  if (!look_for(in, "Coefficient:")) return NULL;
+  if (!look_for(in, "Coefficient:")) malformed_cone();
   in >> cone->coefficient;
-  if (!in.good()) return NULL;
-  if (!look_for(in, "Vertex:")) return NULL;
+  if (!in.good()) malformed_cone();
+  if (!look_for(in, "Vertex:")) malformed_cone();
   /* FIXME: Actually need to handle rational data */
   skip_space(in);
 
   //read in a vertex.
-  if (in.peek() != '[') return NULL;
+  if (in.peek() != '[') malformed_cone();
   in.get(); //delete the [
   vector<RationalNTL> elements;
   RationalNTL oneTerm;
@@ -292,7 +299,7 @@ readConeFromFile(istream &in)
   {
 	  in >> oneTerm;
 	  skip_space(in);
-	  if (!in.good()) return NULL;
+	  if (!in.good()) malformed_cone();
 	  elements.push_back(oneTerm);
   }
 
@@ -300,7 +307,7 @@ readConeFromFile(istream &in)
 
   //vec_ZZ v;
   //in >> v;
-  if (!in.good()) return NULL; //not sure what this does.--Brandon
+  if (!in.good()) malformed_cone();
   //ZZ denom;
   //denom = 1;
   //cone->vertex = new Vertex(new rationalVector(v, denom));
@@ -310,9 +317,9 @@ readConeFromFile(istream &in)
 
   //end of reading 1 vertex.
 
-  if (!look_for(in, "rays:")) return NULL;
+  if (!look_for(in, "rays:")) malformed_cone();
   cone->rays = readListVector(in);
-  if (!look_for(in, "Facets:")) return NULL;
+  if (!look_for(in, "Facets:")) malformed_cone();
   cone->facets = readListVector(in);
   return cone;
 }
@@ -352,6 +359,10 @@ listCone *
 readListConeFromFile(const char *filename)
 {
   ifstream in(filename);
+  if (!in) {
+    cerr << "Cannot open input file " << filename << " in readListConeFromFile." << endl;
+    exit(1);
+  }
   return readListConeFromFile(in);
 }
 
diff --git a/code/latte/ramon.cpp b/code/latte/ramon.cpp
index 479bff2..f79b990 100644
--- a/code/latte/ramon.cpp
+++ b/code/latte/ramon.cpp
@@ -21,6 +21,7 @@
 
 #include <fstream>
 #include "ramon.h"
+#include "latte_system.h"
 
 /* ----------------------------------------------------------------- */
 vec_ZZ createVector(int numOfVars) {
@@ -117,6 +118,7 @@ listVector* readListVector(char *fileName, int* numOfVars) {
 
   in >> numOfVectors;
   in >> (*numOfVars);
+  if (!in) unexpected_end_of_input("the matrix dimensions");
 
   basis = createListVector(createVector(*numOfVars));
   endBasis = basis;
@@ -124,6 +126,7 @@ listVector* readListVector(char *fileName, int* numOfVars) {
   for (i=0; i<numOfVectors; i++) {
     b=createVector(*numOfVars);
     for (j=0; j<(*numOfVars); j++) in >> b[j];
+    if (!in) unexpected_end_of_input("a vector");
     endBasis->rest = createListVector(b);
     endBasis=endBasis->rest;
   }
diff --git a/code/latte/top-knapsack/Driver.cpp b/code/latte/top-knapsack/Driver.cpp
index abd5d51..0989347 100644
--- a/code/latte/top-knapsack/Driver.cpp
+++ b/code/latte/top-knapsack/Driver.cpp
@@ -125,11 +125,21 @@ int main(int argc, char *argv[]) {
 	file.open(inFile.c_str());
 	int n;
 	file >> n;
+	if (!file)
+	{
+		cerr << "Cannot read the number of elements from " << inFile << endl;
+		THROW_LATTE( LattException::fe_Open, 0);
+	}
 	vec_ZZ alpha;
 	alpha.SetLength(n);
 
 	for (int i = 0; i < n; ++i)
 		file >> alpha[i];
+	if (!file)
+	{
+		cerr << "Cannot read " << n << " elements from " << inFile << endl;
+		THROW_LATTE( LattException::fe_Open, 0);
+	}
 
 	Timer time("Total");
 	time.start();
diff --git a/code/latte/triangulation/TriangulationWithTOPCOM.cpp b/code/latte/triangulation/TriangulationWithTOPCOM.cpp
index 6511007..8fdfc49 100644
--- a/code/latte/triangulation/TriangulationWithTOPCOM.cpp
+++ b/code/latte/triangulation/TriangulationWithTOPCOM.cpp
@@ -201,6 +201,10 @@ all_triangulations_of_cone_with_TOPCOM(listCone *cone, int numOfVars)
   system_with_error_check(TOPCOM_POINTS2TRIANGS " < " + topcom_input_file_name
 			  + " > " + topcom_output_file_name);
   ifstream topcom_output(topcom_output_file_name.c_str());
+  if (!topcom_output) {
+    cerr << "Cannot open TOPCOM output file " << topcom_output_file_name << endl;
+    exit(1);
+  }
   list<listCone *> triangulations;
   while (topcom_output.good()) {
     CollectingConeConsumer ccc;
diff --git a/code/latte/triangulation/test-triangulation.cpp b/code/latte/triangulation/test-triangulation.cpp
index 360138d..096d102 100644
--- a/code/latte/triangulation/test-triangulation.cpp
+++ b/code/latte/triangulation/test-triangulation.cpp
@@ -99,7 +99,7 @@ int main(int argc, char **argv)
   else {
     /* Input in LattE cone format. */
     ifstream in(argv[argc-1]);
-    if (in.bad()) {
+    if (!in.good()) {
       cerr << "triangulate: Unable to open " << argv[argc-1] << endl;
       exit(1);
     }
diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 98a86ff..3c8dce6 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -822,6 +822,11 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 			{
 				cerr << "Reading " << (integrationInput.integrandType == IntegrationInput::inputPolynomial ? "polynomial" : "linear forms" ) << " from file " << integrationInput.fileName.c_str() << endl;
 				getline(inStream, integrationInput.integrand, '\n');
+				if (!inStream)
+				{
+					cerr << "Error: cannot read the integrand from " << integrationInput.fileName << endl;
+					THROW_LATTE( LattException::fe_Open, 0);
+				}
 				inFile.close();
 			} else if (integrationInput.unweightedCounting == true && interactiveLatte == false)
 			{
@@ -860,6 +865,11 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 				integrationInput.processUserInput();
 				//char integrandLine[150];
 				getline(inStream, integrationInput.integrand, '\n');
+				if (!inStream)
+				{
+					cerr << "Error: cannot read the integrand" << endl;
+					THROW_LATTE( LattException::fe_Open, 0);
+				}
 				//integrationInput.integrand = integrandLine;
 			}//user supplied integrand in a file.
 
diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 3e9393f..9c66c62 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -227,6 +227,7 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	OUT << "begin" << endl;
 	in >> x >> y;
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("the matrix dimensions");
 	OUT << x << " " << y << " integer" << endl;
 	while (tmpString != "end")
 	{
@@ -255,6 +256,7 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	while (tmpString != "begin")
 	  if (!getline(in2, tmpString)) unexpected_end_of_input("begin");
 	getline(in2, tmpString);
+	if (!in2) unexpected_end_of_input("end");
 	while (tmpString != "end")
 	{
 		if (!getline(in2, tmpString)) unexpected_end_of_input("end");
@@ -266,6 +268,7 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("end");
 	OUT << counter << " " << numOfVars << " rational" << endl;
 	while (tmpString != "end")
 	{
@@ -322,13 +325,14 @@ void createCddExtFile2(const char* filename)
 	in >> numOfVec >> numOfVars;
 	ofstream OUT;
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("the matrix dimensions");
 	OUT.open("latte_cdd.ext");
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
 	OUT << numOfVec << " " << numOfVars << " integer" << endl;
 	for (i = 0; i < numOfVec; i++)
 	{
-		getline(in, tmpString);
+		if (!getline(in, tmpString)) unexpected_end_of_input("a row of the matrix");
 		OUT << tmpString << endl;
 	}
 	OUT << "end" << endl;
@@ -424,6 +428,7 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 	while (tmpString != "begin")
 	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 	in >> tmpString;
+	if (!in) unexpected_end_of_input("the optimal solution");
 	for (int i = 0; i < numOfVars; i++)
 	{
 		in >> tmpString >> tmpString;
@@ -431,6 +436,7 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 		x = 0;
 		y = 0;
 		ReadCDD(in, x, y);
+		if (!in) unexpected_end_of_input("the optimal solution");
 		OptVector->set_entry(i, x, y);
 
 	}
@@ -525,6 +531,7 @@ listCone* readCddExtFile(int &numOfVars)
 	  if (!getline(in, tmpString)) unexpected_end_of_input("begin");
 
 	in >> numOfVertices >> numOfVars >> tmpString;
+	if (!in) unexpected_end_of_input("the matrix dimensions");
 
 	cones = createListCone();
 	endCones = cones;
@@ -563,6 +570,7 @@ listCone* readCddExtFile(int &numOfVars)
 
 			in.get(read);
 		}
+		if (!in) unexpected_end_of_input("end");
 
 		if (flag)
 		{
@@ -590,6 +598,7 @@ listCone* readCddExtFile(int &numOfVars)
 			x = 0;
 			y = 0;
 			ReadCDD(in, x, y);
+			if (!in) unexpected_end_of_input("a vertex");
 
 			if (j > 0)
 			{
@@ -652,6 +661,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 
 	in >> numOfVertices;
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("the number of vertices");
 
 	vertices = createArrayRationalVector(numOfVertices);
 
@@ -675,6 +685,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 
 		in >> numOfRays;
 		in >> tmpString;
+		if (!in) unexpected_end_of_input("the number of adjacent vertices");
 
 		rays = createListVector(createVector(numOfVars));
 		endRays = rays;
@@ -684,6 +695,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 			for (j = 0; j < numOfRays; j++)
 			{
 				in >> k;
+				if (!in) unexpected_end_of_input("an adjacent vertex");
 				v = constructRay(vertices[i], vertices[k - 1], numOfVars - 1);
 				endRays->rest = createListVector(v);
 				endRays = endRays->rest;
@@ -696,6 +708,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 			for (j = 0; j < numOfVertices - numOfRays; ++j)
 			{
 				in >> k;
+				if (!in) unexpected_end_of_input("an adjacent vertex");
 				while (r < k)
 				{
 					v = constructRay(vertices[i], vertices[r - 1], numOfVars
@@ -743,6 +756,7 @@ void CreatExtEadFile()
 	while (tmpString != "end")
 	  if (!getline(in, tmpString)) unexpected_end_of_input("end");
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("end");
 
 	ofstream outExt("latte_cdd.ext");
 	while (tmpString != "end")
@@ -751,6 +765,7 @@ void CreatExtEadFile()
 		outExt << tmpString << endl;
 	}
 	getline(in, tmpString);
+	if (!in) unexpected_end_of_input("end");
 
 	ofstream outEad("latte_cdd.ead");
 	while (tmpString != "end")
@@ -796,6 +811,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 	}
 
 	in >> numOfVertices >> tmp_int;
+	if (!in) unexpected_end_of_input("the number of vertices");
 
 	vertices = createArrayRationalVector(numOfVertices);
 
@@ -819,6 +835,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 
 		in >> numOfRays;
 		in >> tmpString;
+		if (!in) unexpected_end_of_input("the number of adjacent vertices");
 
 		rays = createListVector(createVector(numOfVars));
 		endRays = rays;
@@ -828,6 +845,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 			for (j = 0; j < numOfRays; j++)
 			{
 				in >> k;
+				if (!in) unexpected_end_of_input("an adjacent vertex");
 				v = constructRay(vertices[i], vertices[k - 1], numOfVars - 1);
 				endRays->rest = createListVector(v);
 				endRays = endRays->rest;
@@ -840,6 +858,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 			for (j = 0; j < numOfRays; ++j)
 			{
 				in >> k;
+				if (!in) unexpected_end_of_input("an adjacent vertex");
 				while (r < k)
 				{
 					v = constructRay(vertices[i], vertices[r - 1], numOfVars
-- 
2.43.0


From fee7c7ae470f5ac28e73ecb31f43d66c54ffda1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 11/16] fix: copy all of a cone in CopyListCones and do not
 share its vertex

---
 code/latte/vertices/cdd.cpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 9c66c62..40532f0 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -60,7 +60,6 @@ listVector* CopyListVector(listVector* A, int numOfVars)
 listCone* CopyListCones(listCone* RudyCones, int numOfVars,
 		rationalVector* Opt_vertex)
 {
-	int s;
 	listCone *cones, *endCones, *newCone, *tmp;
 
 	cones = createListCone();
@@ -73,12 +72,7 @@ listCone* CopyListCones(listCone* RudyCones, int numOfVars,
 				&& (tmp->vertex->vertex->denominators()
 						== Opt_vertex->denominators()))
 		{
-			newCone = createListCone();
-			s = tmp->coefficient;
-			newCone->coefficient = s;
-			newCone->rays = CopyListVector(tmp->rays, numOfVars);
-			newCone->facets = CopyListVector(tmp->facets, numOfVars);
-			newCone->vertex = tmp->vertex;
+			newCone = copyCone(tmp);
 			endCones->rest = newCone;
 			endCones = endCones->rest;
 		}
@@ -91,9 +85,7 @@ listCone* CopyListCones(listCone* RudyCones, int numOfVars,
 /* ----------------------------------------------------------------- */
 listCone* CopyListCones(listCone* RudyCones, int numOfVars)
 {
-	int s;
 	listCone *cones, *endCones, *newCone, *tmp;
-	listVector *latticepoint;
 	cones = createListCone();
 	endCones = cones;
 	tmp = RudyCones;
@@ -102,14 +94,7 @@ listCone* CopyListCones(listCone* RudyCones, int numOfVars)
 
 		//    if((tmp->vertex->numerators()==Opt_vertex->numerators()) &&
 		//(tmp->vertex->denominators()==Opt_vertex->denominators())){
-		newCone = createListCone();
-		latticepoint = createListVector(tmp->latticePoints->first);
-		newCone->latticePoints = latticepoint;
-		s = tmp->coefficient;
-		newCone->coefficient = s;
-		newCone->rays = CopyListVector(tmp->rays, numOfVars);
-		newCone->facets = CopyListVector(tmp->facets, numOfVars);
-		newCone->vertex = tmp->vertex;
+		newCone = copyCone(tmp);
 		endCones->rest = newCone;
 		endCones = endCones->rest;
 
-- 
2.43.0


From 27a00f4f3113d7045501873e0c756e389772fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 12/16] fix: refuse unknown options of normalize and unknown
 valuations, and let --all mean every method

---
 code/latte/normalize/normaliz_wrapper.cpp |  6 +++++-
 code/latte/valuation/valuation.cpp        | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/code/latte/normalize/normaliz_wrapper.cpp b/code/latte/normalize/normaliz_wrapper.cpp
index b742ae4..eb1bf6f 100644
--- a/code/latte/normalize/normaliz_wrapper.cpp
+++ b/code/latte/normalize/normaliz_wrapper.cpp
@@ -528,7 +528,11 @@ int main(int argc, char *argv[]) {
 	strcpy(action,argv[i]+9);
       } else if (strncmp(argv[i], "--hilbert-from-rays=",20) == 0) {
 	strcpy(hilbert_from_rays,argv[i]+20);
-      } 
+      } else {
+	fprintf(stderr, "Unknown option %s\n", argv[i]);
+	usage();
+	exit(1);
+      }
   }
   symmGroup=myReadListVector(&numOfVars,symFileName);
   if (symmGroup==0) {
diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 3c8dce6..8fb0a1a 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -471,6 +471,13 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 			params->substitution = BarvinokParameters::PolynomialSubstitution;
 		else if (strncmp(argv[i], "--maxdet=", 9) == 0)
 			params->max_determinant = atoi(argv[i] + 9);
+		else if (strcmp(argv[i], "--all") == 0) // before its prefix --all-primal
+		{
+			// Use every method, which is the default.
+			integrationInput.useTangentCones = false;
+			integrationInput.useTriangulation = false;
+			integrationInput.polynomialAsPLF = false;
+		}
 		else if (strncmp(argv[i], "--irrational-all-primal", 14) == 0
 				|| strncmp(argv[i], "--all-primal", 5) == 0)
 			params->decomposition
@@ -571,7 +578,7 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 
 					<< endl;
 			exit(0);
-		} else if ( strncmp(argv[i], "--valuation=", 11) == 0)
+		} else if ( strncmp(argv[i], "--valuation=", 12) == 0)
 		{
 			if ( strcmp(argv[i], "--valuation=volume") == 0)
 				integrationInput.valuationVolume = true;
@@ -583,7 +590,10 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 				integrationInput.unweightedCounting = true;
 			}
 			else
-				; //nothing.
+			{
+				cerr << "Unknown valuation " << argv[i] << endl;
+				THROW_LATTE(LattException::ue_UnknownCommandLineOption, 0);
+			}
 		}
 		else if (strcmp(argv[i], "--top-ehrhart-unweighted")==0)
 		{
-- 
2.43.0


From 4ccce9d1c40215d381da2aea9267f82a44bd17d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 13/16] fix: stop when cddlib or an SQLite statement reports an
 error

---
 code/latte/sqlite/SqliteDB.cpp | 7 +++++++
 code/latte/vertices/cdd.cpp    | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/code/latte/sqlite/SqliteDB.cpp b/code/latte/sqlite/SqliteDB.cpp
index 903b2f3..cdb149a 100644
--- a/code/latte/sqlite/SqliteDB.cpp
+++ b/code/latte/sqlite/SqliteDB.cpp
@@ -120,6 +120,13 @@ vector<vector<string> > SqliteDB::query(const char* query)
 		}//while there are more rows
 	        
 		sqlite3_finalize(statement);//free up the memory.
+		if ( result != SQLITE_DONE)
+		{
+			stringstream s;
+			s << "SqliteDB ERROR:: ." << query << ". " << sqlite3_errmsg(dbPtr) << endl;
+			cout << s.str().c_str() << endl;
+			throw SqliteDBexception(s.str());
+		}//the statement failed or the rows are incomplete.
 	}//if no errors
 	else
 	{
diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 40532f0..020254a 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -1075,6 +1075,8 @@ static int compute_adjacency(int argc, char *argv[])
 	/*   fprintf(stdout, "redundant rows:\n");*/
 	time(&starttime);
 	redrows = dd_RedundantRows(M, &err);
+	if (err != dd_NoError)
+		goto _L99;
 	time(&endtime);
 	set_fwrite(out, redrows);
 	/*   dd_WriteTimes(stdout,starttime,endtime); */
@@ -1088,6 +1090,8 @@ static int compute_adjacency(int argc, char *argv[])
 
 	/*   fprintf(stdout, "Implicit linearity (after removal of redundant rows): "); */
 	linrows = dd_ImplicitLinearityRows(M2, &err);
+	if (err != dd_NoError)
+		goto _L99;
 
 	set_fwrite(stdout, linrows);
 	set_uni(M2->linset, M2->linset, linrows);
-- 
2.43.0


From 7f23631fa01b582d22323cc23c9a461a4cc61b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 14/16] fix: give values to members and locals that could be
 read without one

---
 code/latte/Residue.cpp                     |  2 --
 code/latte/barvinok/barvinok.cpp           |  1 +
 code/latte/integration/newIntegration.cpp  |  4 +++-
 code/latte/normalize/normaliz_wrapper.cpp  |  2 +-
 code/latte/normalize/normalize.cpp         | 11 +++++++++--
 code/latte/valuation/PolytopeValuation.cpp |  1 +
 code/latte/valuation/valuation.cpp         |  1 +
 7 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/code/latte/Residue.cpp b/code/latte/Residue.cpp
index 07b3343..3698e3e 100644
--- a/code/latte/Residue.cpp
+++ b/code/latte/Residue.cpp
@@ -703,8 +703,6 @@ Residue_Single_Cone(listCone* cones, int numOfVars,
   //  cerr<<"Getting numerator...";
   Integer translation, kk;
   vector<Integer> numExps(noCones);
-  int tmp_k = k;
-  kk = tmp_k;
   // Get dot product and add negative denominator exponents for each cone.
   for(i=0;i<noCones;i++) {
     numExps[i]=0;
diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index b88e3fc..b7f34df 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -67,6 +67,7 @@ BarvinokParameters::BarvinokParameters() :
   triangulation_special_cone(NULL),
   triangulation_prescribed_height_data(NULL),
   triangulation_assume_fulldim(true),
+  debug_triangulation(false),
   dualization(
 #ifdef HAVE_FORTYTWO_LIB
 	      DualizationWith4ti2
diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..5d567ee 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -519,6 +519,8 @@ void _integrateMonomialSum(ZZ &a, ZZ &b, _monomialSum &monomials,
 		const simplexZZ &mySimplex)
 {
 	_linFormSum forms;
+	forms.lHead = NULL;
+	forms.cHead = NULL;
 	forms.termCount = 0;
 	forms.varCount = monomials.varCount;
 	for (int i = 0; i < monomials.termCount; i++)
diff --git a/code/latte/normalize/normaliz_wrapper.cpp b/code/latte/normalize/normaliz_wrapper.cpp
index eb1bf6f..c2e7b7d 100644
--- a/code/latte/normalize/normaliz_wrapper.cpp
+++ b/code/latte/normalize/normaliz_wrapper.cpp
@@ -371,7 +371,7 @@ listVector* pullOneRay(char* simplicialConesFileName, char* mainConesInFileName,
             listVector* mainCones, listVector* symmGroup,
             int rayToBePulled, int numOfVars, int dimension) {
   int maxNorm,threshold,localRayToBePulled;
-  listVector *simplicialCones, *smallCones, *mainOrbits;
+  listVector *simplicialCones = 0, *smallCones, *mainOrbits;
   char mainConesInFileNameNumbered[PATH_MAX], mainConesOutFileNameNumbered[PATH_MAX],
     smallConesInFileName[PATH_MAX],smallConesOutFileName[PATH_MAX],trivialSmallConesOutFileName[PATH_MAX];
   
diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..94c7595 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -500,7 +500,10 @@ sscan_comma_separated_list(const char *s)
   std::istringstream f(csl);
   while (f.good()) {
     int a;
-    f >> a;
+    if (!(f >> a)) {
+      cerr << "Expected comma-separated list of integers" << endl;
+      exit(1);
+    }
     result->push_back(a);
     if (f.eof()) break;
     char c;
@@ -586,7 +589,7 @@ int normalize_main(int argc, char **argv)
     exit(1);
   }
 
-  listCone *cone;
+  listCone *cone = NULL;
   bool create_triang_file = true;
   bool have_subcones = false;
   string output_subcones_filename;
@@ -728,6 +731,10 @@ int normalize_main(int argc, char **argv)
   }
 
   if (params.triangulation_prescribed_height_data) {
+    if (cone == NULL) {
+      cerr << "Cannot prescribe heights for a triangulation file, which has no master cone." << endl;
+      exit(1);
+    }
     params.triangulation_prescribed_height_data->special_rays
       = copyListVector(cone->rays);
     
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index f818190..b79d883 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -99,6 +99,7 @@ void PolytopeValuation::convertToOneCone()
 	listCone * oneCone = new listCone();
 	oneCone->coefficient = 1;
 	oneCone->determinant = 0;
+	oneCone->index_hint = -1;
 	oneCone->subspace_generators = NULL;
 	oneCone->dual_determinant = 0;
 	oneCone->facets = NULL;
diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 8fb0a1a..a422f23 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -1117,6 +1117,7 @@ void Valuation::polyhedronToCones(const IntegrationInput &intInput, Polyhedron *
 Valuation::IntegrationInput::IntegrationInput()
 {
 	integrandType = nothing;
+	unweightedCounting = false;
 
 	//volume algorithms
 	volumeCone = false;									//volume using the cone method.
-- 
2.43.0


From c45ccea3b8faaf6b40d7ff40a5a7131a0de922d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:30 +0000
Subject: [PATCH 15/16] fix: keep exact numbers out of machine integers and
 rounded floats

---
 code/latte/CheckEmpty.cpp                |  5 ++--
 code/latte/ReadingFile.cpp               |  9 ++++---
 code/latte/barvinok/Triangulation.cpp    |  4 +--
 code/latte/binarySearchIP.cpp            | 34 ++++++------------------
 code/latte/buildPolytopes/GraphMaker.cpp |  6 +++++
 code/latte/integration/PolyRep.cpp       |  4 +--
 6 files changed, 26 insertions(+), 36 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index e0c765c..b728a58 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -45,6 +45,7 @@
 #include "latte_system.h"
 #include "latte_relocatable.h"
 #include "LattException.h"
+#include "latte_ntl.h"
 
 void CheckEmpty(const char * Filename){
   int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
@@ -87,7 +88,7 @@ void CheckEmpty(const char * Filename){
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
   if(flag == 2) hold = numOfDims - 1;
-  for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
+  for(int i = 0; i < numOfEqu; i++) equs[i] = convert_ZZ_to_int(Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
     for(int j = 0; j < numOfDims; j++)
@@ -106,7 +107,7 @@ void CheckEmpty(const char * Filename){
  
   int tmpInt;
   for(int i = 0; i < numOfNonneg; i++){
-    conv(tmpInt, Index2[i]); //cerr << Index2[i] << " ";
+    tmpInt = convert_ZZ_to_int(Index2[i]); //cerr << Index2[i] << " ";
     NONNEG[tmpInt-1][tmpInt-1] = 1;
   }
   
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 3e5304f..f868e19 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -32,6 +32,7 @@
 #include "latte_relocatable.h"
 #include "ReadingFile.h"
 #include "LattException.h"
+#include "latte_ntl.h"
 
 /* ----------------------------------------------------------------- */
 
@@ -84,7 +85,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
   if(flag == 2) hold = numOfDims - 1;
-  for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
+  for(int i = 0; i < numOfEqu; i++) equs[i] = convert_ZZ_to_int(Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
     for(int j = 0; j < numOfDims; j++)
@@ -115,7 +116,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
  
   int tmpInt;
   for(int i = 0; i < numOfNonneg; i++){
-    conv(tmpInt, Index2[i]); //cerr << Index2[i] << " ";
+    tmpInt = convert_ZZ_to_int(Index2[i]); //cerr << Index2[i] << " ";
     NONNEG[tmpInt-1][tmpInt-1] = 1;
   }
   
@@ -412,9 +413,9 @@ void CheckInputFileCDDRep4(const char *InputFile){
   while(tmp != "begin")
     if (!getline(in, tmp)) unexpected_end_of_input("begin");
   in >> zztmp;
-  conv(constrains, zztmp);
+  constrains = convert_ZZ_to_int(zztmp);
   in >> zztmp;
-  conv(dim, zztmp);
+  dim = convert_ZZ_to_int(zztmp);
   in >> tmp;
   for(int j = 0; j < constrains; j++){
     for(int k = 0; k < dim; k++){
diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index c857bec..90f4965 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -269,7 +269,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
     if(neg[i] == 1 ){
       for(int j = 0; j < numOfPoints[i]; j++)
         if(Result[i][j] != 0){
-          conv(ZZToInt, Result[i][j]);
+          ZZToInt = convert_ZZ_to_int(Result[i][j]);
 	  List.push_front(ZZToInt);
 	}
       count++;
@@ -281,7 +281,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
       if(neg[i] == 0 ){
 	for(int j = 0; j < numOfPoints[i]; j++)
 	  if(Result[i][j] != 0){
-            conv(ZZToInt, Result[i][j]);
+            ZZToInt = convert_ZZ_to_int(Result[i][j]);
             List.push_front(ZZToInt);
 	  }
 	count++;
diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 51516f4..1eab8f0 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -249,8 +249,7 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       int i = 0, counter = 0;
       ZZ low, high, mid, Opt, TotalNumOfUniCones;
       rationalVector *Low_opt, *High_opt;
-      vec_RR Low_solution, High_solution, tmp_den, tmp_num, Rat_cost, Rat_cost2;
-      RR Rat_low, Rat_high;
+      RationalNTL Rat_low, Rat_high;
       vec_ZZ low_cost;
       // cerr << cost << endl;
       low_cost = -cost;
@@ -266,34 +265,17 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       //cerr << Low_opt ->denominators() << " " << High_opt->denominators()<< endl;
       cerr << "A optimal solution for LP relax.: ";
       printRationalVector(High_opt, numOfVars);
-      Low_solution.SetLength(numOfVars);
-      High_solution.SetLength(numOfVars);
-      tmp_den.SetLength(numOfVars);
-      tmp_num.SetLength(numOfVars);
-      Rat_cost.SetLength(numOfVars);
-      Rat_cost2.SetLength(numOfVars);
-
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], High_opt->numerators()[i]);
-	 conv(tmp_den[i], High_opt->denominators()[i]);
-       	 High_solution[i] = tmp_num[i]/tmp_den[i];
-	 conv(Rat_cost[i], cost[i]);
-     		}
-
+      // The bounds have to be exact.
       for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], Low_opt->numerators()[i]);
-          conv(tmp_den[i], Low_opt->denominators()[i]);
-       	 Low_solution[i] = tmp_num[i]/tmp_den[i];
-     		}
-
-      Rat_high = Rat_cost * High_solution;
-      Rat_low = (Rat_cost) * Low_solution;
-      cerr << "The optimal value for LP relax.: " << Rat_high << endl << endl;
-      high = CeilToZZ(Rat_high);
+	 Rat_high.add(cost[i] * High_opt->numerators()[i], High_opt->denominators()[i]);
+	 Rat_low.add(cost[i] * Low_opt->numerators()[i], Low_opt->denominators()[i]);
+      }
+      cerr << "The optimal value for LP relax.: " << Rat_high.to_RR() << endl << endl;
+      high = -((-Rat_high.getNumerator()) / Rat_high.getDenominator());
       Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
 
       high += 1;
-      low = CeilToZZ(Rat_low);
+      low = -((-Rat_low.getNumerator()) / Rat_low.getDenominator());
 
       if(high < low) {
         ZZ tmp_ZZ;
diff --git a/code/latte/buildPolytopes/GraphMaker.cpp b/code/latte/buildPolytopes/GraphMaker.cpp
index 7f9e19c..59474b6 100644
--- a/code/latte/buildPolytopes/GraphMaker.cpp
+++ b/code/latte/buildPolytopes/GraphMaker.cpp
@@ -502,6 +502,12 @@ int GraphMaker::nchoosek(const int n1, const int k1)
 	ans = mpq_class(topProduct, bottomProduct);
 	ans.canonicalize();
 
+	if ( ! ans.get_num().fits_sint_p())
+	{
+		cerr << "nchoosek() result is too large" << endl;
+		exit(1);
+	}//the number of vertices is an int.
+
 	return ((int) ans.get_num().get_si());
 }//nchoosek()
 
diff --git a/code/latte/integration/PolyRep.cpp b/code/latte/integration/PolyRep.cpp
index 28d0cef..1b7d136 100644
--- a/code/latte/integration/PolyRep.cpp
+++ b/code/latte/integration/PolyRep.cpp
@@ -174,7 +174,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 	{
 		if (line[i] == '[')
 		{
-			int degreeFactorial;
+			ZZ degreeFactorial;
 			switch (flag)
 			{
 				case 0: //coefficient
@@ -210,7 +210,7 @@ void _parseLinForms(_FormSumConsumer<RationalNTL>* consumer, const string& line)
 						degreeFactorial *= j;
 						//coefficient *= j;
 					} //in _linFormSum, coefficient is assumed to be divided by the factorial of the form degree
-					coefficient *= to_ZZ(degreeFactorial);
+					coefficient *= degreeFactorial;
 					consumer->ConsumeLinForm(coefficient, degree, coefs);
 					flag = 0;
 					break;
-- 
2.43.0


From 50276ea7fcabec61cc735b884a971348f22fdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:12 +0000
Subject: [PATCH 16/16] fix: memory used after release (LattException::what,
 GeneralMonomialSum::setToConstant, cones after Residue)

---
 code/latte/LattException.cpp                | 6 +++---
 code/latte/LattException.h                  | 1 +
 code/latte/count.cpp                        | 2 ++
 code/latte/integration/GeneralMonomialSum.h | 1 +
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..fb10ae3 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -58,9 +58,9 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
+	whatMessage = "";
 	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
+	whatMessage = printErrorMessages();
 
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..c6186a3 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -92,6 +92,7 @@ private:
 	int lineNumber;
 	string fileName;
 	bool printStatus;
+	mutable string whatMessage; //what() points into it.
 };
 
 #endif /* LATTEXCEPTION_H_ */
diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index cc02803..c05e311 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -662,6 +662,8 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 			{
 				cerr << "Starting final computation.\n";
 				ZZ number = Residue(Poly->cones, Poly->numOfVars);
+				// Residue consumes cones.
+				Poly->cones = NULL;
 				params->deliver_number_of_lattice_points(number);
 				countAnswerContainer.numLaticePoints = number;
 			}
diff --git a/code/latte/integration/GeneralMonomialSum.h b/code/latte/integration/GeneralMonomialSum.h
index 7273a90..0e1287a 100644
--- a/code/latte/integration/GeneralMonomialSum.h
+++ b/code/latte/integration/GeneralMonomialSum.h
@@ -207,6 +207,7 @@ void GeneralMonomialSum<T, S>::setToConstant(T c)
 {
 	if (myMonomials)
 		delete myMonomials;
+	myMonomials = NULL;
 	termCount = 0;
 
 	T coeff;
-- 
2.43.0

