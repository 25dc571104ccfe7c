From dda7091ab3fda3416ea09100398df2af220fa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/81] fix: refuse beams whose optional vectors do not match
 the energies

Reading past the end of a too short weight, characteristic or divergency
vector put arbitrary memory into the beam. The pointer interface documents
that NULL can be given for everything but the energies, but a NULL
characteristic of type double was dereferenced.
---
 src/fisx_beam.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fisx_beam.cpp b/src/fisx_beam.cpp
index cc5095a..5c44200 100644
--- a/src/fisx_beam.cpp
+++ b/src/fisx_beam.cpp
@@ -27,6 +27,7 @@
 #############################################################################*/
 #include "fisx_beam.h"
 #include <algorithm>
+#include <stdexcept>
 
 namespace fisx
 {
@@ -47,6 +48,17 @@ void Beam::setBeam(const std::vector<double> & energy, \
     int defaultCharacteristic;
     double defaultDivergency;
 
+    // the optional vectors must be empty, contain a single (common) value or one value per energy
+    if (energy.size() > 0)
+    {
+        if (((weight.size() > 1) && (weight.size() != energy.size())) || \
+            ((characteristic.size() > 1) && (characteristic.size() != energy.size())) || \
+            ((divergency.size() > 1) && (divergency.size() != energy.size())))
+        {
+            throw std::invalid_argument("Beam::setBeam. Number of values does not match number of energies");
+        }
+    }
+
     this->normalized = false;
 
     if(energy.size() > 0)
@@ -177,6 +189,12 @@ void Beam::setBeam(const int & nValues, const double *energy, const double *weig
     int i;
     std::vector<int> flags;
 
+    if (characteristic == NULL)
+    {
+        this->setBeam(nValues, energy, weight, (const int *) NULL, divergency);
+        return;
+    }
+
     flags.resize(nValues);
     for (i = 0; i < nValues; i++)
     {
-- 
2.43.0


From 800733b3e7af2dbe2f7044de0248999f0c09d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 02/81] fix: add up the amounts of a substance given several
 times to a material

Only the last amount was kept while the normalization considered all of them,
so that the mass fractions did not add up to one.
---
 src/fisx_material.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_material.cpp b/src/fisx_material.cpp
index f531107..b4d7bd1 100644
--- a/src/fisx_material.cpp
+++ b/src/fisx_material.cpp
@@ -140,7 +140,8 @@ void Material::setComposition(const std::vector<std::string> & names, const std:
 
     for (i = 0; i < amounts.size(); ++i)
     {
-        this->composition[names[i]] = amounts[i] / total;
+        // the same substance can be given several times
+        this->composition[names[i]] += amounts[i] / total;
     }
 
 }
-- 
2.43.0


From a27457815a483bb386b442aff7c28d7e81d576ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 03/81] fix: read scans not followed by an empty line and
 single character data lines

A scan followed immediately by another one lost its labels and data, and a
data line consisting of a single digit was taken as end of the scan (unless
the line ended with CR LF).
---
 src/fisx_simplespecfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index e54bd53..90f2966 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -65,10 +65,16 @@ void SimpleSpecfile::setFileName(std::string fileName)
     {
         //std::cout << line << std::endl;
         ++numberOfLines;
-        if(line.size() > 1)
+        // an empty line (eventually with a trailing CR) finishes a scan
+        if((line.size() > 0) && (line != "\r"))
         {
             if (line.substr(0, 2) == "#S")
             {
+                if (startLine >= 0)
+                {
+                    // no empty line after the previous scan
+                    this->scanFilePositions.back().second = numberOfLines;
+                }
                 startLine = numberOfLines;
                 this->scanFilePositions.push_back(std::make_pair(startLine, startLine));
                 endLine = -1;
-- 
2.43.0


From 36c3564cec24f46c8fc41d315100db3539fcfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 04/81] fix: do not include leading blanks in the first label
 of a scan

---
 src/fisx_simplespecfile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simplespecfile.cpp b/src/fisx_simplespecfile.cpp
index 90f2966..53207ec 100644
--- a/src/fisx_simplespecfile.cpp
+++ b/src/fisx_simplespecfile.cpp
@@ -182,7 +182,13 @@ std::vector<std::string> SimpleSpecfile::getScanLabels(int scanIndex)
             line.erase(line.size() - 1);
 
     // trim leading and trailing spaces
-    iStart = line.find_first_of(" ") + 1;
+    iStart = line.find_first_of(" ");
+    iStart = line.find_first_not_of(" ", iStart);
+    if (iStart == std::string::npos)
+    {
+        // no label
+        return result;
+    }
     iEnd = line.find_last_not_of(" ");
     line = line.substr(iStart, 1 + iEnd - iStart);
 
-- 
2.43.0


From 788e55939520aa6676a19f863d9875999b0a663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 05/81] fix: do not append a null character to commented ini
 values

A comment added a null character to the value in the same line, and a comment
line added it to the value of the previous key.
---
 src/fisx_simpleini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 9758f6d..477d550 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -156,7 +156,8 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     if ((trimmedLine[i] == '#') || (trimmedLine[i] == ';'))
                     {
-                        i = trimmedLine.size();
+                        // ignore everything from here
+                        break;
                     }
                     if (equalPosition == 0)
                     {
-- 
2.43.0


From 7e808d1e30ae6a17c01a51fe0a43c9f5c780b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 06/81] fix: case insensitive ini section search returned any
 section but the matching one

---
 src/fisx_simpleini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 477d550..07bed23 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -319,7 +319,7 @@ const std::map<std::string, std::string > & SimpleIni::readSection(const std::st
                             break;
                         }
                     }
-                    if (j < inputKey.size())
+                    if (j == inputKey.size())
                     {
                         return this->sectionContents[tmpKey];
                     }
-- 
2.43.0


From 9efda8630ce2cdf4a3a9eb2e2545f62419c93c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 07/81] fix: case sensitive search of ini subsections never
 found any

---
 src/fisx_simpleini.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 07bed23..69ce114 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -260,7 +260,7 @@ void SimpleIni::getSubsections(const std::string & parent, \
         targetString = parent + ".";
         for (i = 0; i < this->sections.size(); i++)
         {
-            if (this->sections[i].size() == targetString.size())
+            if (this->sections[i].size() >= targetString.size())
             {
                 if (this->sections[i].substr(0, targetString.size()) == targetString)
                 {
-- 
2.43.0


From 8ff6e57066506ffe82356c88d87da677078fed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 08/81] fix: ini continuation lines do not extend over section
 boundaries

A line without equal sign following a section header created the last key of
the previous section in the new section.
---
 src/fisx_simpleini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index 69ce114..d70beb6 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -130,6 +130,8 @@ void SimpleIni::readFileName(std::string fileName)
                     throw std::invalid_argument(msg);
                 }
                 mainKey = trimmedLine.substr(p0 + 1, length);
+                // a continuation line cannot follow a section header
+                key = "";
                 this->sections.push_back(mainKey);
                 this->sectionPositions[mainKey] = numberOfLines;
                 continue;
-- 
2.43.0


From 92d235982d1b240cd76f524b1f9d9334bd7f35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 09/81] fix: reading an ini file forgets the previous one and
 is all or nothing

The keys of the previously read file were kept, and a malformed line left a
mixture of both files behind.
---
 src/fisx_simpleini.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index d70beb6..f2cbea5 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -65,14 +65,16 @@ void SimpleIni::readFileName(std::string fileName)
     std::streampos position;
     std::ifstream fileInstance(fileName.c_str(), std::ios::in | std::ios::binary);
     std::string msg;
+    // nothing is modified till the file is successfully parsed
+    std::map<std::string, std::map<std::string, std::string> > newContents;
+    std::vector<std::string> newSections;
+    std::map<std::string, long> newPositions;
 
     if (!fileInstance.good())
     {
         msg = "File <" + fileName + "> mot accessible";
         throw std::ios_base::failure(msg);;
     }
-    this->sections.clear();
-    this->sectionPositions.clear();
     p0 = 0;
     position = 0;
     numberOfLines = -1;
@@ -132,8 +134,8 @@ void SimpleIni::readFileName(std::string fileName)
                 mainKey = trimmedLine.substr(p0 + 1, length);
                 // a continuation line cannot follow a section header
                 key = "";
-                this->sections.push_back(mainKey);
-                this->sectionPositions[mainKey] = numberOfLines;
+                newSections.push_back(mainKey);
+                newPositions[mainKey] = numberOfLines;
                 continue;
             }
 
@@ -208,14 +210,14 @@ void SimpleIni::readFileName(std::string fileName)
                 }
                 key = tmpString.substr(p0, length);
                 content = tmpString.substr(p1 + 1, tmpString.size() - p1 - 1);
-                this->sectionContents[mainKey][key] = content;
+                newContents[mainKey][key] = content;
             }
             else
             {
                 // continuation line
                 if ((key.size() > 0) && (mainKey.size() > 0))
                 {
-                    this->sectionContents[mainKey][key] += tmpString;
+                    newContents[mainKey][key] += tmpString;
                 }
                 else
                 {
@@ -229,6 +231,9 @@ void SimpleIni::readFileName(std::string fileName)
     {
         fileInstance.close();
     }
+    this->sectionContents = newContents;
+    this->sections = newSections;
+    this->sectionPositions = newPositions;
     this->fileName = fileName;
 }
 
-- 
2.43.0


From 3e90ce3544bfd74af1ee7460ec71849fbdce31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 10/81] fix: do not truncate the strings of an ini value list
 at the first blank

Materials with a blank in the name were read as the first word of the name.
---
 src/fisx_simpleini.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fisx_simpleini.h b/src/fisx_simpleini.h
index f8ad2d3..f75ac53 100644
--- a/src/fisx_simpleini.h
+++ b/src/fisx_simpleini.h
@@ -134,6 +134,20 @@ public:
         return true;
     };
 
+    // a string can contain blanks, only the surrounding ones are ignored
+    static bool stringConverter(const std::string& str, std::string & text)
+    {
+        std::string::size_type first, last;
+        first = str.find_first_not_of(" \n\r\t");
+        if (first == std::string::npos)
+        {
+            return false;
+        }
+        last = str.find_last_not_of(" \n\r\t");
+        text = str.substr(first, 1 + last - first);
+        return true;
+    };
+
     /*!
     Utility function (from Kleist in stackoverflow) to check if a string starts with testString
     */
-- 
2.43.0


From 3430b4327275f725b8f2f0bd4c7b92dd51fd46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 11/81] fix: refuse non-radiative transitions without one value
 per label

Also replace, instead of extend, the previous transitions when they are
given as arrays.
---
 src/fisx_shell.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 3790d33..6db151c 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -145,6 +145,10 @@ void Shell::setNonradiativeTransitions(std::vector<std::string> labels, std::vec
 {
     std::vector<int>::size_type i;
 
+    if (labels.size() != values.size())
+    {
+        throw std::invalid_argument("Number of transitions does not match number of values");
+    }
     if (this->nonradiativeTransitions.size() > 0)
     {
         // empty current list
@@ -182,12 +186,15 @@ void Shell::setNonradiativeTransitions(std::map<std::string, double> inputMap)
 
 void Shell::setNonradiativeTransitions(const char *c_strings[], const double *values, int nValues)
 {
+    std::vector<std::string> labels;
+    std::vector<double> vValues;
     int i;
     for(i=0; i < nValues; i++)
     {
-        this->nonradiativeTransitions[this->toUpperCaseString(std::string(c_strings[i]))] = values[i];
+        labels.push_back(std::string(c_strings[i]));
+        vValues.push_back(values[i]);
     }
-    this->_updateNonradiativeRatios();
+    this->setNonradiativeTransitions(labels, vValues);
 }
 
 void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector<double> values)
-- 
2.43.0


From 3cbc306c6c3e096e8f0a1564fbd92fc978db9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 12/81] fix: refused radiative transitions leave the subshell
 as it was

Check the lengths and that every label, also the five characters ones,
belongs to the subshell prior to replacing the previous transitions.
---
 src/fisx_shell.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index 6db151c..f9f6c7c 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -201,10 +201,11 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
 {
     std::string tmpString;
     std::vector<int>::size_type i;
-    if (this->radiativeTransitions.size() > 0)
+    std::map<std::string, double> transitions;
+
+    if (labels.size() != values.size())
     {
-        // empty current list
-        this->radiativeTransitions.clear();
+        throw std::invalid_argument("Number of transitions does not match number of values");
     }
     for (i = 0; i != labels.size(); i++)
     {
@@ -218,7 +219,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         }
         if ((tmpString.size() == 5) && (tmpString != "TOTAL"))
         {
-            if (isdigit(tmpString.at(3)) && isdigit(tmpString.at(4)))
+            if ((tmpString.substr(0, this->name.size()) == this->name) && \
+                isdigit(tmpString.at(3)) && isdigit(tmpString.at(4)))
             {
                 // These are the following cases in PyMca:
                 // L1P23, L1O45
@@ -229,7 +231,7 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
                 // energy will not be derived from the binding energies
                 // PyMca was deriving the energy skipping the last digit.
                 // std::cout << "setting key" << tmpString.substr(0, 4) << std::endl;
-                this->radiativeTransitions[tmpString.substr(0, 4)] = values[i];
+                transitions[tmpString.substr(0, 4)] = values[i];
                 // other alternative would be to generate two keys with half
                 // the rate as being closer to the real stuff. Nevertheless,
                 // both transitions would most likely be mixed due to the
@@ -246,13 +248,13 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
         {
             if (tmpString.substr(0, this->name.size()) == this->name)
             {
-                this->radiativeTransitions[tmpString] = values[i];
+                transitions[tmpString] = values[i];
             }
             else
             {
                 if(tmpString == "TOTAL")
                 {
-                    this->radiativeTransitions[tmpString] = values[i];
+                    transitions[tmpString] = values[i];
                 }
                 else
                 {
@@ -262,6 +264,8 @@ void Shell::setRadiativeTransitions(std::vector<std::string> labels, std::vector
             }
         }
     }
+    // checks finished, replace the current list
+    this->radiativeTransitions = transitions;
     this->_updateFluorescenceRatios();
 }
 
-- 
2.43.0


From ec04609e968a0f3ea743a3fb0447ed2015576f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 13/81] fix: refused shell constants do not partially modify
 the subshell

---
 src/fisx_shell.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index f9f6c7c..dccf981 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -655,16 +655,16 @@ void Shell::setShellConstants(std::map<std::string, double> shellConstants)
 
     for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
     {
-        if(this->shellConstants.find(c_it->first) != this->shellConstants.end())
-        {
-            this->shellConstants[c_it->first] = c_it->second;
-        }
-        else
+        if(this->shellConstants.find(c_it->first) == this->shellConstants.end())
         {
             msg = "Invalid constant " + c_it->first + " for " + this->name +" shell";
             throw std::invalid_argument(msg);
         }
     }
+    for (c_it = shellConstants.begin(); c_it != shellConstants.end(); ++c_it)
+    {
+        this->shellConstants[c_it->first] = c_it->second;
+    }
 }
 
 const std::map<std::string, double> & Shell::getShellConstants() const
-- 
2.43.0


From 11e0bb86e31c36426161db0424ea07c2233a17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 14/81] fix: do not read before the start of short
 non-radiative transition labels

---
 src/fisx_shell.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fisx_shell.cpp b/src/fisx_shell.cpp
index dccf981..6df2bda 100644
--- a/src/fisx_shell.cpp
+++ b/src/fisx_shell.cpp
@@ -573,7 +573,8 @@ std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::s
     // Auger pattern Origin-AnyDestination
     for (it = this->augerRatios.begin(); it != this->augerRatios.end(); ++it)
     {
-        if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
+        if ((it->first.size() >= destination.size()) && \
+            std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
         {
             output["auger"] += it->second;
         }
@@ -600,7 +601,8 @@ std::map<std::string, double> Shell::getDirectVacancyTransferRatios(const std::s
         // Coster-Kronig pattern Origin-AnyDestination
         for (it = ck_it->second.begin(); it != ck_it->second.end(); ++it)
         {
-            if (std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
+            if ((it->first.size() >= destination.size()) && \
+                std::equal(destination.rbegin(), destination.rend(), it->first.rbegin()))
             {
                 output[ck_it->first] += it->second;
             }
-- 
2.43.0


From 2f8523b86939c6ed4dd76fa91e9ca5b48ff9585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 15/81] fix: do not return references to the data of a
 temporary subshell

---
 src/fisx_element.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index b3292ba..a5f6ae5 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1087,15 +1087,13 @@ const std::map<std::string, double> & Element::getFluorescenceRatios(const std::
 
 const std::map<std::string, double> & Element::getAugerRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getAugerRatios();
 }
 
 const std::map<std::string, std::map<std::string, double> > & Element::getCosterKronigRatios(std::string subshell)
 {
-    Shell shell;
-    shell = this->getShell(subshell);
+    const Shell & shell = this->getShell(subshell);
     return shell.getCosterKronigRatios();
 }
 
-- 
2.43.0


From 1bb220afa89c62334574358cee62f93c99de04aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 16/81] fix: element caches follow changes of binding energies
 and transitions

Refused binding energies leave the element as it was.
---
 src/fisx_element.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index a5f6ae5..3c468cd 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -147,13 +147,10 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
     std::map<std::string, double>::iterator it;
     std::string tmpString;
 
-    // get rid of any shell definition
-    this->shellInstance.clear();
-    this->bindingEnergy.clear();
+    std::map<std::string, Shell> newShellInstance;
 
     for (it = bindingEnergies.begin(); it != bindingEnergies.end(); ++it)
     {
-        this->bindingEnergy[it->first] = it->second;
         tmpString = "";
         if (it->first.size())
         {
@@ -162,18 +159,24 @@ void Element::setBindingEnergies(std::map<std::string, double> bindingEnergies)
         //std::cout << this->name << " " << it->first << " " << it->second << "tmp = " << tmpString << std::endl;
         if ((tmpString == "K") || (tmpString == "L") || (tmpString == "M"))
         {
-            if (this->shellInstance.find(it->first) == this->shellInstance.end())
+            if (newShellInstance.find(it->first) == newShellInstance.end())
             {
                 // instantiate the appropriate shell
                 // Shell constructor will take care of valid shells
                 // This uses default constructor ...
-                this->shellInstance[it->first] = Shell(it->first);
+                newShellInstance[it->first] = Shell(it->first);
                 /* This does not require default constructor, but MSVC still requires it
                  this->shellInstance.insert\
                     (std::map<std::string, Shell>::value_type(it->first, Shell::Shell(it->first))); */
             }
         }
     }
+
+    // all the shells are valid, replace any previous definition
+    this->shellInstance = newShellInstance;
+    this->bindingEnergy = bindingEnergies;
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setBindingEnergies(std::vector<std::string> labels, std::vector<double> bindingEnergies)
@@ -983,6 +986,8 @@ void Element::setRadiativeTransitions(std::string subshell, \
         throw std::invalid_argument(msg);
     }
     this->shellInstance[subshell].setRadiativeTransitions(labels, values);
+    this->emptyCascadeCache();
+    this->clearCache();
 }
 
 void Element::setRadiativeTransitions(std::string subshell, std::map<std::string, double> values)
@@ -1000,6 +1005,7 @@ void Element::setRadiativeTransitions(std::string subshell, std::map<std::string
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setRadiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1029,6 +1035,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::vector<std::
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(labels, values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
@@ -1047,6 +1054,7 @@ void Element::setNonradiativeTransitions(std::string subshell, std::map<std::str
         throw std::invalid_argument("Requested shell is not a K, L or M subshell");
     }
     this->shellInstance[subshell].setNonradiativeTransitions(values);
+    this->emptyCascadeCache();
     this->clearCache();
 }
 
-- 
2.43.0


From 8338b2d7edfad411abee0c8323750387f14aff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 17/81] fix: EPDL97 attenuation coefficients do not depend on
 previous calls

The interpolation used a static starting point shared by all instances and
threads that determined the points used outside the tabulated range.
---
 src/fisx_epdl97.cpp | 68 ++++++++++-----------------------------------
 1 file changed, 15 insertions(+), 53 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index b19f6d9..c02911d 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -28,6 +28,7 @@
 #include "fisx_epdl97.h"
 #include "fisx_simplespecfile.h"
 #include <stdexcept>
+#include <algorithm>
 #include <iostream>
 #include <math.h>
 // #include <ctime>
@@ -777,66 +778,27 @@ std::string EPDL97::toUpperCaseString(const std::string & str) const
 
 std::pair<long, long> EPDL97::getInterpolationIndices(const std::vector<double> & vec, const double & x) const
 {
-    static long lastI0 = 0L;
-    std::vector<double>::size_type length, iMin, iMax, distance;
-    int counter;
-    std::pair<long, long> result;
-
-    // try if last point is of any use
-    length = vec.size();
-    if (lastI0 >= (int) length)
-    {
-        lastI0 = (long) (length - 1);
-    }
-    if (x < vec[lastI0])
+    // The result cannot depend on previous calls: the points used below the first tabulated
+    // energy or above the last one would depend on what was asked before (or simultaneously
+    // from a different thread).
+    long iMin, iMax;
+    std::vector<double>::const_iterator c_it;
+
+    c_it = std::lower_bound(vec.begin(), vec.end(), x);
+    if (c_it == vec.end())
     {
-        iMax = lastI0;
-        iMin = 0;
+        iMax = (long) vec.size() - 1;
     }
     else
     {
-        iMin = lastI0;
-        iMax = length - 1;
-        // try a point that is close?
-        if ((length - iMin) > 21)
+        iMax = (long) (c_it - vec.begin());
+        if (iMax == 0)
         {
-            lastI0 = (long) (iMin + 20);
-            if (x < vec[lastI0])
-            {
-                iMax = lastI0;
-            }
+            iMax = 1;
         }
     }
-
-    counter = 0;
-    distance = iMax - iMin;
-    while (distance > 1)
-    {
-        // divide the distance by two
-        if (distance > 2)
-        {
-            distance = distance >> 1;
-        }
-        else
-        {
-            distance -= 1;
-        }
-        lastI0 = (long) (iMin + distance);
-        if (x > vec[lastI0])
-        {
-            iMin = lastI0;
-        }
-        else
-        {
-            iMax = lastI0;
-        }
-        distance = iMax - iMin;
-        counter++;
-    }
-    // std::cout << "Needed " << counter << " iterations " << std::endl;
-    result.first = (long) iMin;
-    result.second = (long) iMax;
-    return result;
+    iMin = iMax - 1;
+    return std::pair<long, long>(iMin, iMax);
 }
 
 } // namespace fisx
-- 
2.43.0


From db4a9ba1760066683b258a63e60194437fd649bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 18/81] fix: vacancy cascade of elements defining only some of
 the shells

The shells were taken to be the first ones of the list, what dereferenced
shells not present and ignored those present.
---
 src/fisx_element.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 3c468cd..7c143ee 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1139,8 +1139,8 @@ std::map<std::string, double> Element::getEmittedXRayLines(const double & energy
         shell_it = this->shellInstance.find(keys[i]);
         if(shell_it == this->shellInstance.end())
         {
-            // shell is not defined, we are done
-            return result;
+            // shell is not defined
+            continue;
         }
 
         c_it = this->bindingEnergy.find(keys[i]);
@@ -1259,8 +1259,13 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     std::map<std::string, double>::const_iterator bind_it;
 
     // get a complete initial distribution of vacancies
-    for (i = 0; i < this->shellInstance.size(); i++)
+    for (i = 0; i < 9; i++)
     {
+        if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+        {
+            // shell not defined
+            continue;
+        }
         c_it = distribution.find(keys[i]);
         if (c_it != distribution.end())
         {
@@ -1274,15 +1279,20 @@ Element::getCascadeModifiedVacancyDistribution(const std::map<std::string, doubl
     }
 
     // update the distribution due to the cascade
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
-        if(finalDistribution[keys[i]] > 0.0)
+        if ((finalDistribution.find(keys[i]) != finalDistribution.end()) && \
+            (finalDistribution[keys[i]] > 0.0))
         {
             // we have initial vacancies in shell i
             // propagate to all the higher shells j
             shell_it = this->shellInstance.find(keys[i]);
-            for (j = i + 1; j < finalDistribution.size(); j++)
+            for (j = i + 1; j < 9; j++)
             {
+                if (finalDistribution.find(keys[j]) == finalDistribution.end())
+                {
+                    continue;
+                }
                 rate = 0.0;
                 transferRatios.clear();
                 transferRatios = shell_it->second.getDirectVacancyTransferRatios(keys[j]);
@@ -1335,10 +1345,8 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
                 cacheKey = cascadeCache.find(c_it->first);
                 if (cacheKey == cascadeCache.end())
                 {
-                    std::cout << this->name << " Error processing vacancy on shell " << c_it->first << std::endl;
-                    throw std::runtime_error("Vacancy in a shell not present in the cache!");
-                    // the above is not good, there can be no emission following a vacancy (rate too low)
-                    // it seems to be triggered by As L1 vacancies
+                    // shell not defined, it is ignored as when not using the cache
+                    continue;
                 }
                 for(std::map<std::string, std::map<std::string, double> >::const_iterator rayIt = \
                     cacheKey->second.begin(); rayIt != cacheKey->second.end(); ++rayIt)
@@ -1363,8 +1371,13 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     else
     {
         // get a complete initial distribution of vacancies
-        for (i = 0; i < this->shellInstance.size(); i++)
+        for (i = 0; i < 9; i++)
         {
+            if (this->shellInstance.find(keys[i]) == this->shellInstance.end())
+            {
+                // shell not defined
+                continue;
+            }
             c_it = distribution.find(keys[i]);
             if (c_it != distribution.end())
             {
@@ -1381,10 +1394,14 @@ Element::getXRayLinesFromVacancyDistribution(const std::map<std::string, double>
     // we have the final vacancy distribution accounting for cascade
     // we just have to generate the dictionary of rates and energies
     // for each transition
-    for (i = 0; i < finalDistribution.size(); i++)
+    for (i = 0; i < 9; i++)
     {
         // get all the fluorescence transitions to that shell
         shell_it = this->shellInstance.find(keys[i]);
+        if (shell_it == this->shellInstance.end())
+        {
+            continue;
+        }
         fluorescenceRatios = shell_it->second.getFluorescenceRatios();
         for (c_it = fluorescenceRatios.begin(); c_it != fluorescenceRatios.end(); c_it++)
         {
-- 
2.43.0


From b5fc4aa632983c2ee666644751c858a379cc1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 19/81] fix: do not read beyond the supplied weights of the
 excitation energies

---
 src/fisx_element.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 7c143ee..224cc35 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -1531,6 +1531,10 @@ std::vector<std::map<std::string, std::map<std::string, double> > >Element::getP
         result.clear();
         return result;
     }
+    if ((weights.size() > 1) && (weights.size() != energy.size()))
+    {
+        throw std::invalid_argument("Number of weights does not match number of energies");
+    }
     if (weights.size() == 1)
         weight = weights[0];
     else
-- 
2.43.0


From 74fb93d2f5367c742183c7857a6cf81df1401ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 20/81] fix: initialize the atomic mass of new elements

---
 src/fisx_element.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 224cc35..804d593 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -49,6 +49,9 @@ Element::Element()
     // Unset density
     this->density = 1.0;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset position in periodic table
     this->column = -1;
     this->row = -1;
@@ -76,6 +79,9 @@ Element::Element(std::string name, int z = 0)
     // Unset density
     this->density = 1.0;
 
+    // Unset atomic mass
+    this->atomicMass = 0.0;
+
     // Unset position in periodic table
     this->column = -1;
     this->row = -1;
-- 
2.43.0


From df54b07e2963085df54f5a4c4d3b349dfd483ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/81] fix: attenuation coefficients of elements with
 incomplete or short tables

Elements without binding energy or coefficients for some shell, with a
single energy or without positive coefficients made the code to read
outside the tables.
---
 src/fisx_element.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 804d593..f54e66c 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -696,7 +696,7 @@ std::map<std::string, double> \
     std::map<std::string, double> result;
     std::vector<std::string>::size_type i;
     std::pair<long, long> indices;
-    long i1, i2, i1w, i2w;
+    long i1, i2, i1w, i2w, nValues;
     double A, B, x0, x1, y0, y1, x0w, x1w;
     std::map<std::string, double >::const_iterator c_itSingle;
     std::map<std::string, std::vector<double> >::const_iterator c_it;
@@ -718,13 +718,20 @@ std::map<std::string, double> \
         if (shell != "all other")
         {
             c_itSingle = this->bindingEnergy.find(shell);
-            if ((c_itSingle->second == 0.0) || (energy < c_itSingle->second))
+            if ((c_itSingle == this->bindingEnergy.end()) || \
+                (c_itSingle->second == 0.0) || (energy < c_itSingle->second))
             {
                 continue;
             }
         }
         c_it = this->muPartialPhotoelectricEnergy.find(shell);
         y_it = this->muPartialPhotoelectricValue.find(shell);
+        if (c_it->second.size() < 1)
+        {
+            // nothing known about this shell
+            continue;
+        }
+        nValues = (long) c_it->second.size();
         indices = this->getInterpolationIndices(c_it->second, energy);
         i1 = indices.first;
         i2 = indices.second;
@@ -784,11 +791,20 @@ std::map<std::string, double> \
                         // according to the binding energies, the shell is excited, but the
                         // respective mass attenuation is zero. We have to extrapolate
                         i1w = i1;
-                        while(y_it->second[i1w] <= 0.0)
+                        while((i1w < nValues) && (y_it->second[i1w] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= nValues)
+                        {
+                            // not enough points to extrapolate
+                            if (i1w < nValues)
+                            {
+                                result[shell] = y_it->second[i1w];
+                            }
+                            continue;
+                        }
                         y0 = y_it->second[i1w];
                         y1 = y_it->second[i2w];
                         x0w = c_it->second[i1w];
@@ -844,15 +860,24 @@ std::map<std::string, double> \
                     // respective mass attenuation is zero. We have to extrapolate
                     // std::cout << "case b2" << std::endl;
                     i1w = i1;
-                    while(y_it->second[i1w] <= 0.0)
+                    while((i1w < nValues) && (y_it->second[i1w] <= 0.0))
                     {
                         i1w += 1;
                     }
                     i2w = i1w + 1;
+                    if (i2w >= nValues)
+                    {
+                        // not enough points to extrapolate
+                        if (i1w < nValues)
+                        {
+                            result[shell] = y_it->second[i1w];
+                        }
+                        continue;
+                    }
                     x0w = c_it->second[i1w];
                     x1w = c_it->second[i2w];
                     // check for duplicates
-                    if ((x1w - x0w) < 1.0E-10)
+                    if (((x1w - x0w) < 1.0E-10) && ((i2w + 1) < nValues))
                     {
                         i1w += 1;
                         i2w += 1;
@@ -1603,7 +1628,13 @@ std::pair<long, long> Element::getInterpolationIndices(const std::vector<double>
 
     c_it = std::lower_bound(vec.begin(), vec.end(), x);
 
-    if (c_it == vec.end())
+    if (vec.size() < 2)
+    {
+        // nothing to interpolate
+        iMax = 0;
+        iMin = 0;
+    }
+    else if (c_it == vec.end())
     {
         iMax = vec.size() - 1;
         iMin = iMax - 1;
-- 
2.43.0


From 2108bf0b5e83fe474f70a4d399bfcc2b2d8c7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 22/81] fix: EPDL97 shells with binding energy but without
 coefficients

Looking for the first positive coefficient did not stop at the table end.
---
 src/fisx_epdl97.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index c02911d..930d234 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -469,11 +469,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                                 // according to the binding energies, the shell is excited, but the
                                 // respective mass attenuation is zero. We have to extrapolate
                                 i1w = i1;
-                                while((*pVector)[i1w][idx] <= 0.0)
+                                while((i1w < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                                 {
                                     i1w += 1;
                                 }
                                 i2w = i1w + 1;
+                                if (i2w >= (long) pVector->size())
+                                {
+                                    // not enough points to extrapolate
+                                    continue;
+                                }
                                 y0 = (*pVector)[i1w][idx];
                                 y1 = (*pVector)[i2w][idx];
                                 x0w = this->muEnergy[zHelp][i1w];
@@ -557,11 +562,16 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                         // extrapolation case
                         // We are forcing EPDL97 to respect a given set of binding energies
                         i1w = i1;
-                        while((*pVector)[i1w][idx] <= 0.0)
+                        while((i1w < (long) pVector->size()) && ((*pVector)[i1w][idx] <= 0.0))
                         {
                             i1w += 1;
                         }
                         i2w = i1w + 1;
+                        if (i2w >= (long) pVector->size())
+                        {
+                            // not enough points to extrapolate
+                            continue;
+                        }
                         y0 = (*pVector)[i1w][idx];
                         y1 = (*pVector)[i2w][idx];
                         x0w = this->muEnergy[zHelp][i1w];
-- 
2.43.0


From f010190b61ac48ebda6b23eed17f1f634f2fc76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 23/81] fix: interpolation from a null to a positive
 attenuation coefficient

The value below the first positive coefficient was interpolated as if the
null coefficient were one, giving values far above the tabulated ones (for
instance just above the pair production threshold).
---
 src/fisx_element.cpp | 8 ++++----
 src/fisx_epdl97.cpp  | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index f54e66c..796bd6d 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -442,9 +442,9 @@ std::map<std::string, double> Element::getMassAttenuationCoefficients(const doub
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
+                    if ((y1 > 0.0) && (energy > x0))
                     {
-                        result[key] = exp(B * log(y1));
+                        result[key] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
@@ -834,9 +834,9 @@ std::map<std::string, double> \
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
+                    if ((y1 > 0.0) && (energy > x0))
                     {
-                        result[shell] = exp(B * log(y1));
+                        result[shell] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 930d234..7b63dc8 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -522,9 +522,9 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                 }
                 else
                 {
-                    if ((y1 > 0.0) && ((energy - x0) > 1.E-5))
+                    if ((y1 > 0.0) && (energy > x0))
                     {
-                        result[key] = exp(B * log(y1));
+                        result[key] = y1 * ((energy - x0) / (x1 - x0));
                     }
                     else
                     {
-- 
2.43.0


From cd3bfd97cd1e90b731be206567ec8da2e4cbaca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 24/81] fix: tabulated coefficient followed by a null one at
 the first energy

---
 src/fisx_element.cpp | 13 ++++++++++---
 src/fisx_epdl97.cpp  |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/fisx_element.cpp b/src/fisx_element.cpp
index 796bd6d..c562fb8 100644
--- a/src/fisx_element.cpp
+++ b/src/fisx_element.cpp
@@ -448,7 +448,7 @@ std::map<std::string, double> Element::getMassAttenuationCoefficients(const doub
                     }
                     else
                     {
-                        result[key] = 0.0;
+                        result[key] = (energy == x0) ? y0 : 0.0;
                     }
                 }
             }
@@ -840,7 +840,7 @@ std::map<std::string, double> \
                     }
                     else
                     {
-                        result[shell] = 0.0;
+                        result[shell] = (energy == x0) ? y0 : 0.0;
                     }
                 }
             }
@@ -852,7 +852,14 @@ std::map<std::string, double> \
                     // std::cout << "case b1" << std::endl;
                     // usual interpolation case
                     // the shell is excited and the photoelectric coefficient is positive
-                    result[shell] = exp(A * log(y0) + B * log(y1));
+                    if (y1 > 0.0)
+                    {
+                        result[shell] = exp(A * log(y0) + B * log(y1));
+                    }
+                    else
+                    {
+                        result[shell] = (energy == x0) ? y0 : 0.0;
+                    }
                 }
                 else
                 {
diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 7b63dc8..2368fc2 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -528,7 +528,7 @@ std::map<std::string, double> EPDL97::getMassAttenuationCoefficients(const int &
                     }
                     else
                     {
-                        result[key] = 0.0;
+                        result[key] = (energy == x0) ? y0 : 0.0;
                     }
                 }
                 continue;
-- 
2.43.0


From c9aa960f1335899377a6dd573cfabe62f1e7a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 25/81] fix: formulas with characters or groups following a
 parenthesised group

A single character following a group was lost, groups without number were
only accepted at the end of the formula and a closing parenthesis prior to
the opening one could never end.
---
 src/fisx_elements.cpp | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 420d198..809c531 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1675,20 +1675,18 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
     nParenthesis = openParenthesis.size();
     if ( nParenthesis > 0)
     {
-        if (nParenthesis > 1)
+        p2 = closeParenthesis[0];
+        if (openParenthesis[0] > p2)
         {
-            p1 = 0;
-            for (i = 0; i < nParenthesis; ++i)
-            {
-                if (openParenthesis[i] < closeParenthesis[0])
-                    p1 = openParenthesis[i];
-            }
+            // closed prior to be opened
+            return composition;
         }
-        else
+        p1 = openParenthesis[0];
+        for (i = 0; i < nParenthesis; ++i)
         {
-            p1 = openParenthesis[0];
+            if (openParenthesis[i] < p2)
+                p1 = openParenthesis[i];
         }
-        p2 = closeParenthesis[0];
         length = p2 - p1 - 1;
         if(length < 1)
         {
@@ -1701,22 +1699,22 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             return tmpComposition;
         }
         // get the numbers assoiated to the parenthesis
-        if ((p2+1) == formula.size())
+        i = p2 + 1;
+        while( i < formula.size())
+        {
+            if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
+            {
+                break;
+            }
+            i += 1;
+        }
+        if (i == (p2 + 1))
         {
             // the number associated  to that parenthesis is 1
             factor = 1.0;
         }
         else
         {
-            i = p2 + 1;
-            while( i < formula.size())
-            {
-                if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
-                {
-                    break;
-                }
-                i += 1;
-            }
             if (!this->stringToDouble(formula.substr(p2+1, i - (p2+1)), factor))
             {
                 return composition;
@@ -1740,7 +1738,7 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         {
             newFormula += it->first + this->toString(it->second * factor);
         }
-        if (i < (formula.size()-1))
+        if (i < formula.size())
         {
             newFormula += formula.substr(i, formula.size() - i);
         }
-- 
2.43.0


From 849a732609b9faa43f3347105489630736af902e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 26/81] fix: do not truncate the amounts of the groups of a
 formula to six digits

---
 src/fisx_elements.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 809c531..c331af6 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1975,7 +1975,9 @@ bool Elements::stringToDouble(const std::string& str, double& number)
 std::string Elements::toString(const double& number)
 {
     std::ostringstream ss;
-    ss << number;
+    // used to write formulas: all the digits are needed and no exponent can be used
+    ss.precision(17);
+    ss << std::fixed << number;
     std::string s(ss.str());
     return s;
 }
-- 
2.43.0


From dbb81533bd2294cda7fa718e0ef4221b806b5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 27/81] fix: do not take text that is not a formula as a
 formula

Letters following a number were appended to the symbol and anything else
was taken as part of the number (F1e2 as Fe12, C2o as Co2, ...).
---
 src/fisx_elements.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index c331af6..ed79d4c 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1540,6 +1540,12 @@ std::map<std::string, double> Elements::getCompositionFromFormula(const std::str
         parsedFormula[name] *= this->elementList[matIterator->second].getAtomicMass();
         total += parsedFormula[name];
     }
+    if (total <= 0.0)
+    {
+        // no atom at all
+        parsedFormula.clear();
+        return parsedFormula;
+    }
     for (it = parsedFormula.begin(); it != parsedFormula.end(); ++it)
     {
         parsedFormula[it->first] /= total;
@@ -1781,11 +1787,20 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
             {
                 if (islower(formula[i]))
                 {
+                    if (!parsingKey)
+                    {
+                        // a number cannot be followed by a lower case letter
+                        return composition;
+                    }
                     lastKey += formula.substr(i, 1);
                 }
                 else
                 {
                     // parsing number
+                    if (!isdigit(formula[i]) && (formula[i] != '.'))
+                    {
+                        return composition;
+                    }
                     parsingKey = false;
                     lastNumber += formula.substr(i, 1);
                 }
@@ -1969,7 +1984,8 @@ bool Elements::stringToDouble(const std::string& str, double& number)
         // Number conversion failed
         return false;
     }
-    return true;
+    // the whole string has to be a number
+    return (i.peek() == std::istringstream::traits_type::eof());
 }
 
 std::string Elements::toString(const double& number)
-- 
2.43.0


From 0e2ad4bd17a7a078f669b54722a365c619063592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 28/81] fix: accept only numbers as amount of a group of a
 formula

---
 src/fisx_elements.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ed79d4c..7a005bf 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1706,12 +1706,8 @@ std::map<std::string, double> Elements::parseFormula(const std::string & formula
         }
         // get the numbers assoiated to the parenthesis
         i = p2 + 1;
-        while( i < formula.size())
+        while ((i < formula.size()) && (isdigit(formula[i]) || (formula[i] == '.')))
         {
-            if (isupper(formula[i]) || islower(formula[i]) || (formula[i] == '(') || (formula[i] == ')'))
-            {
-                break;
-            }
             i += 1;
         }
         if (i == (p2 + 1))
-- 
2.43.0


From 9e4e51d4cfa5468d64293029e6b8fa7d6896bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 29/81] fix: composition of user defined elements

---
 src/fisx_elements.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 7a005bf..f764052 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1518,6 +1518,13 @@ std::map<std::string, double> Elements::getCompositionFromFormula(const std::str
     std::map<std::string , int>::const_iterator matIterator;
     // TODO: Still to multiply by Atomic Weight!!!!
 
+    if (this->elementDict.find(formula) != this->elementDict.end())
+    {
+        // the name of an element, not necessarily written as a chemical symbol
+        parsedFormula[formula] = 1.0;
+        return parsedFormula;
+    }
+
     parsedFormula = this->parseFormula(formula);
     if (parsedFormula.size() < 1)
     {
-- 
2.43.0


From 705e4c804b2ed81315b83f3d92ac7d93b04fe293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 30/81] fix: attenuation coefficients of a composition with
 unknown elements

---
 src/fisx_elements.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index f764052..57d07f1 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1151,6 +1151,11 @@ std::map<std::string, std::vector<double> > Elements::getMassAttenuationCoeffici
             massFraction = c_it->second / total;
             element = c_it->first;
             mapIterator = this->elementDict.find(element);
+            if (mapIterator == this->elementDict.end())
+            {
+                msg = "Name " + element + " not among defined elements";
+                throw std::invalid_argument(msg);
+            }
             tmpResult = this->elementList[mapIterator->second].getMassAttenuationCoefficients(energy[n]);
             result["coherent"][n] += tmpResult["coherent"] * massFraction;
             result["compton"][n] += tmpResult["compton"] * massFraction;
-- 
2.43.0


From 154cdb041ac5347c103e718995ae17a51b5a3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 31/81] fix: a refused replacement of a material does not
 remove the material

---
 src/fisx_elements.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 57d07f1..ecaef52 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1195,6 +1195,15 @@ void Elements::addMaterial(const std::string & name, const double & density, \
     Material material;
     std::map<std::string, double> composition;
 
+    material.initialize(name, density, thickness, comment);
+
+    // Try to set the composition from the name
+    composition = this->getCompositionFromFormula(name);
+    if (composition.size() > 0)
+    {
+        material.setComposition(composition);
+    }
+
     if (this->getMaterialIndexFromName(name) < this->materialList.size())
     {
         if (errorOnReplace)
@@ -1207,15 +1216,7 @@ void Elements::addMaterial(const std::string & name, const double & density, \
             this->removeMaterial(name);
         }
     }
-    material.initialize(name, density, thickness, comment);
     this->materialList.push_back(material);
-
-    // Try to set the composition from the name
-    composition = this->getCompositionFromFormula(name);
-    if (composition.size() > 0)
-    {
-        this->setMaterialComposition(name, composition);
-    }
 }
 
 void Elements::setMaterialComposition(const std::string & materialName, \
-- 
2.43.0


From e3ba5485370679303dd8f521365dc12dd53ba1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 32/81] fix: do not write to the standard output when resolving
 a material

---
 src/fisx_elements.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index ecaef52..2ea5e36 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1507,7 +1507,6 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     {
         total += c_it->second;
     }
-    std::cout << "total = " << total << std::endl;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
     {
         result[c_it->first] /= total;
-- 
2.43.0


From ced5229561a83589712db2141386f8c2c95aa048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 33/81] fix: refuse to resolve materials defined in terms of
 themselves

The recursion could never end.
---
 src/fisx_elements.cpp | 39 ++++++++++++++++++++++++++++++++++++---
 src/fisx_elements.h   |  8 ++++++++
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 2ea5e36..2fb49ac 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -1332,6 +1332,13 @@ void Elements::removeMaterials()
 }
 
 std::map<std::string, double> Elements::getComposition(const std::string & name) const
+{
+    std::vector<std::string> parents;
+    return this->getComposition(name, parents);
+}
+
+std::map<std::string, double> Elements::getComposition(const std::string & name, \
+                                                       std::vector<std::string> & parents) const
 {
     std::string msg;
     std::map<std::string, double> result;
@@ -1377,12 +1384,20 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
         tmpResult[c_it->first] /= total;
     }
 
+    if (std::find(parents.begin(), parents.end(), name) != parents.end())
+    {
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
+    parents.push_back(name);
+
     // now, a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first);
+        composition = this->getComposition(c_it->first, parents);
         if (composition.size() < 1)
         {
+            parents.pop_back();
             return composition;
         }
         for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
@@ -1394,6 +1409,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name)
             result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
     }
+    parents.pop_back();
     return result;
 }
 
@@ -1437,6 +1453,14 @@ std::map<std::string, double> Elements::getComposition(const std::map<std::strin
 
 std::map<std::string, double> Elements::getComposition(const std::string & name, \
                                                  const std::vector<Material> & additionalMaterials) const
+{
+    std::vector<std::string> parents;
+    return this->getComposition(name, additionalMaterials, parents);
+}
+
+std::map<std::string, double> Elements::getComposition(const std::string & name, \
+                                                 const std::vector<Material> & additionalMaterials, \
+                                                 std::vector<std::string> & parents) const
 {
     std::vector<Material>::size_type i;
     std::map<std::string, double> result;
@@ -1444,6 +1468,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     std::map<std::string, double> composition;
     std::map<std::string, double>::const_iterator c_it, c_it2;
     double total;
+    std::string msg;
 
     // check if name is a valid element or formula
     result = this->getCompositionFromFormula(name);
@@ -1479,17 +1504,24 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
     if (tmpResult.size() < 1)
     {
         // throw an exception because we have an undefined material in the list of materials
-        std::string msg;
         msg = "Material " + name + " with empty or non-valid composition";
         throw std::invalid_argument(msg);
     }
+    if (std::find(parents.begin(), parents.end(), name) != parents.end())
+    {
+        msg = "Material " + name + " is defined in terms of itself";
+        throw std::invalid_argument(msg);
+    }
+    parents.push_back(name);
+
     // We are dealing with a material that can be defined (or redefined) using the
     // supplied list and a material can be made of formulas, elements or other materials.
     for (c_it = tmpResult.begin(); c_it != tmpResult.end(); ++c_it)
     {
-        composition = this->getComposition(c_it->first, additionalMaterials);
+        composition = this->getComposition(c_it->first, additionalMaterials, parents);
         if (composition.size() < 1)
         {
+            parents.pop_back();
             return composition;
         }
         for (c_it2 = composition.begin(); c_it2 != composition.end(); ++c_it2)
@@ -1501,6 +1533,7 @@ std::map<std::string, double> Elements::getComposition(const std::string & name,
             result[c_it2->first] += composition[c_it2->first] * tmpResult[c_it->first];
         }
     }
+    parents.pop_back();
     // make sure (again ?) that material is normalized
     total = 0;
     for (c_it = result.begin(); c_it != result.end(); ++c_it)
diff --git a/src/fisx_elements.h b/src/fisx_elements.h
index 73e590d..a128871 100644
--- a/src/fisx_elements.h
+++ b/src/fisx_elements.h
@@ -605,6 +605,14 @@ private:
     double detectorAlphaInUsedInCache;
     double detectorThicknessUsedInCache;
     int escapeCacheEnabled;
+    // Same as the public methods but keeping track of the materials being resolved in order
+    // to detect materials defined in terms of themselves
+    std::map<std::string, double> getComposition(const std::string & name, \
+                                        std::vector<std::string> & parents) const;
+    std::map<std::string, double> getComposition(const std::string & name, \
+                                        const std::vector<Material> & additionalMaterials, \
+                                        std::vector<std::string> & parents) const;
+
     bool isEscapeCacheCompatible(\
                                         const std::map<std::string, double> & composition,
                                         const double & energyThreshold, \
-- 
2.43.0


From 840373301e10304c7a0c622a3721657bf8284f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 34/81] fix: refused shell data files leave the elements as
 they were

---
 src/fisx_elements.cpp | 83 +++++++++++++++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 18 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 2fb49ac..25f4242 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -326,6 +326,8 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
     std::vector<std::vector<double> > tmpValues;
     std::vector<std::vector<double> >::size_type n;
     std::map<std::string, double > tmpDict;
+    std::map<std::string, double > bindingE;
+    std::vector<std::vector<std::map<std::string, double> > > newValues;
     std::string msg;
 
     if ((mainShellName == "K") || (mainShellName == "L") || (mainShellName == "M"))
@@ -377,19 +379,21 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         subShells.push_back("M5");
     }
 
+    newValues.resize(nScans);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
+        newValues[i].resize(tmpValues.size());
         for (n = 0; n < tmpValues.size(); n++)
         {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -414,7 +418,22 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
                 }
 
             }
-            this->elementList[n].setShellConstants(subShells[i], tmpDict);
+            // check the values are accepted prior to modify any element
+            Shell(subShells[i]).setShellConstants(tmpDict);
+            newValues[i][n] = tmpDict;
+        }
+    }
+
+    // everything is fine, update the elements
+    for (i = 0; i < nScans ; i++)
+    {
+        for (n = 0; (n < newValues[i].size()) && (n < this->elementList.size()); n++)
+        {
+            bindingE = this->elementList[n].getBindingEnergies();
+            if (bindingE.find(subShells[i]) != bindingE.end())
+            {
+                this->elementList[n].setShellConstants(subShells[i], newValues[i][n]);
+            }
         }
     }
     this->shellConstantsFile[mainShellName] = fileName;
@@ -432,6 +451,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
     std::vector<std::vector<double> >::size_type n;
     std::map<std::string, double > tmpDict;
     std::map<std::string, double > bindingE;
+    std::vector<std::vector<std::map<std::string, double> > > newValues;
     std::string subshell;
     std::string msg;
 
@@ -485,19 +505,21 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         subShells.push_back("M5");
     }
 
+    newValues.resize(nScans);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
+        newValues[i].resize(tmpValues.size());
         for (n = 0; n < tmpValues.size(); n++)
         {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -506,10 +528,21 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
                 }
 
             }
+            // check the values are accepted prior to modify any element
+            Shell(subShells[i]).setNonradiativeTransitions(tmpDict);
+            newValues[i][n] = tmpDict;
+        }
+    }
+
+    // everything is fine, update the elements
+    for (i = 0; i < nScans ; i++)
+    {
+        for (n = 0; (n < newValues[i].size()) && (n < this->elementList.size()); n++)
+        {
             bindingE = this->elementList[n].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setNonradiativeTransitions(subShells[i], tmpDict);
+                this->elementList[n].setNonradiativeTransitions(subShells[i], newValues[i][n]);
             }
         }
     }
@@ -528,6 +561,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
     std::vector<std::vector<double> >::size_type n;
     std::map<std::string, double > tmpDict;
     std::map<std::string, double > bindingE;
+    std::vector<std::vector<std::map<std::string, double> > > newValues;
     std::string subshell;
     std::string msg;
 
@@ -581,19 +615,21 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         subShells.push_back("M5");
     }
 
+    newValues.resize(nScans);
     for (i = 0; i < nScans ; i++)
     {
         tmpLabels = sf.getScanLabels(i);
         tmpValues = sf.getScanData(i);
         nLabels = tmpLabels.size();
-        if (tmpValues[i].size() != nLabels)
-        {
-            msg = "Number of values does not match number of labels in " + fileName;
-            throw std::ios_base::failure(msg);
-        }
         tmpDict.clear();
+        newValues[i].resize(tmpValues.size());
         for (n = 0; n < tmpValues.size(); n++)
         {
+            if (tmpValues[n].size() != nLabels)
+            {
+                msg = "Number of values does not match number of labels in " + fileName;
+                throw std::ios_base::failure(msg);
+            }
             for (j = 0; j < nLabels; j++)
             {
                 if (tmpLabels[j] != "Z")
@@ -602,10 +638,21 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
                 }
 
             }
+            // check the values are accepted prior to modify any element
+            Shell(subShells[i]).setRadiativeTransitions(tmpDict);
+            newValues[i][n] = tmpDict;
+        }
+    }
+
+    // everything is fine, update the elements
+    for (i = 0; i < nScans ; i++)
+    {
+        for (n = 0; (n < newValues[i].size()) && (n < this->elementList.size()); n++)
+        {
             bindingE = this->elementList[n].getBindingEnergies();
             if(bindingE[subShells[i]] > 0.0)
             {
-                this->elementList[n].setRadiativeTransitions(subShells[i], tmpDict);
+                this->elementList[n].setRadiativeTransitions(subShells[i], newValues[i][n]);
             }
         }
     }
-- 
2.43.0


From 7f797519211c9112cfa11f7d3fcc87bc687d6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 35/81] fix: refused mass attenuation coefficients leave the
 elements as they were

---
 src/fisx_elements.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 25f4242..54b16ad 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -772,6 +772,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     std::map<std::string, std::pair<double, int> > extractedEdgeEnergies;
     std::vector<std::vector<double>::size_type> shellIndexList;
     std::string shellList[10] = {"K", "L1", "L2", "L3", "M1", "M2", "M3", "M4", "M5", "all other"};
+    Element updatedElement;
     Element *element;
     std::vector<double> newEnergyGrid;
     std::vector<double>::size_type i, j, shellIndex;
@@ -788,6 +789,17 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
         throw std::invalid_argument(msg);
     }
 
+    // refuse inconsistent data before using them, only the pair production may be omitted
+    if (energy.size() == 0)
+    {
+        throw std::invalid_argument("No energies supplied for element " + name);
+    }
+    if ((photoelectric.size() != energy.size()) || (coherent.size() != energy.size()) || \
+        (compton.size() != energy.size()) || ((pair.size() != 0) && (pair.size() != energy.size())))
+    {
+        throw std::invalid_argument("Mass attenuation coefficients and energies of element " + name + \
+                                    " have different sizes");
+    }
 
     // we have to make sure the partial mass attenuation photoelectric coefficients and the total
     // photoelectric mass attenuation coefficients are self-consistent
@@ -795,8 +807,10 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // is EPDL97
 
     // we reset the mass attenuation coefficients of the element to the EPDL97 values
-    element = &(this->elementList[this->elementDict[name]]);
-    atomicNumber = this->elementList[this->elementDict[name]].getAtomicNumber();
+    // (working on a copy in order not to modify the element if something goes wrong)
+    updatedElement = this->elementList[this->elementDict[name]];
+    element = &updatedElement;
+    atomicNumber = updatedElement.getAtomicNumber();
     massAttenuationCoefficients = epdl97.getMassAttenuationCoefficients(atomicNumber);
 
     (*element).setMassAttenuationCoefficients(massAttenuationCoefficients["energy"],          \
@@ -818,7 +832,8 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // first calculate the appropriate energy grid
 
     j = 0;
-    while(massAttenuationCoefficients["energy"][j] < energy[0])
+    while((j < massAttenuationCoefficients["energy"].size()) && \
+          (massAttenuationCoefficients["energy"][j] < energy[0]))
     {
         j++;
     }
@@ -933,7 +948,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
     // pair
     for (i = j; i < newEnergyGrid.size(); i++)
     {
-        massAttenuationCoefficients["pair"][i] = pair[i - j];
+        massAttenuationCoefficients["pair"][i] = (pair.size() > 0) ? pair[i - j] : 0.0;
     }
 
     // photoelectric
@@ -1022,6 +1037,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                             massAttenuationCoefficients["energy"], \
                                             massAttenuationCoefficients[shell]);
     }
+    this->elementList[this->elementDict[name]] = updatedElement;
 }
 
 
-- 
2.43.0


From ef0df48b16c8bbe175e42e53d46af48db28f7ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 36/81] fix: initialize the state of the escape cache

---
 src/fisx_elements.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 54b16ad..c721df2 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -166,6 +166,14 @@ void Elements::initialize(std::string epdl97Directory, std::string bindingEnergi
     this->shellNonradiativeTransitionsFile["L"] = "";
     this->shellNonradiativeTransitionsFile["M"] = "";
 
+    // the escape cache is disabled and empty
+    this->escapeCacheEnabled = 0;
+    this->detectorEnergyThresholdUsedInCache = 0.0;
+    this->detectorIntensityThresholdUsedInCache = 0.0;
+    this->detectorNThresholdUsedInCache = 0;
+    this->detectorAlphaInUsedInCache = 0.0;
+    this->detectorThicknessUsedInCache = 0.0;
+
     // initialize EPDL97
     this->epdl97.setDataDirectory(epdl97Directory);
 
-- 
2.43.0


From 70d7e9425f63083b79198fe182192c6ce1aa9312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 37/81] fix: changing the physical data discards the cached
 escape peaks

---
 src/fisx_elements.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index c721df2..f149e39 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -311,6 +311,8 @@ void Elements::addElement(const Element & element)
     std::string name;
     name = element.getName();
 
+    // the cached escape peaks were calculated with the previous definition
+    this->clearEscapeCache();
     if (this->elementDict.find(name) != this->elementDict.end())
     {
         // an element with that name already exists
@@ -445,6 +447,7 @@ void Elements::setShellConstantsFile(const std::string & mainShellName, \
         }
     }
     this->shellConstantsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShellName, \
@@ -555,6 +558,7 @@ void Elements::setShellNonradiativeTransitionsFile(const std::string & mainShell
         }
     }
     this->shellNonradiativeTransitionsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellName, \
@@ -665,6 +669,7 @@ void Elements::setShellRadiativeTransitionsFile(const std::string & mainShellNam
         }
     }
     this->shellRadiativeTransitionsFile[mainShellName] = fileName;
+    this->clearEscapeCache();
 }
 
 // Mass attenuation handling
@@ -1046,6 +1051,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                                             massAttenuationCoefficients[shell]);
     }
     this->elementList[this->elementDict[name]] = updatedElement;
+    this->clearEscapeCache();
 }
 
 
-- 
2.43.0


From 2e403d553ead0ffef6b6dffad2c2d189e771e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 38/81] fix: mass attenuation coefficients file read completely
 or not at all

---
 src/fisx_elements.cpp | 134 +++++++++++++++++++++++-------------------
 1 file changed, 75 insertions(+), 59 deletions(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index f149e39..9164a65 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -694,61 +694,60 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
         throw std::ios_base::failure("No scans found in file!");
     }
 
-    for (n = 0; n < nScans; n++)
-    {
-        labels = sf.getScanLabels(n);
-        data = sf.getScanData(n);
-        muEnergy.clear();
-        muPhotoelectric.clear();
-        muCoherent.clear();
-        muCompton.clear();
-        muPair.clear();
-        for (i = 0; i < labels.size(); i++)
-        {
-            key = this->epdl97.toUpperCaseString(labels[i]);
-            if (key.find("ENERGY") != std::string::npos)
-            {
-                muEnergy.resize(data.size());
-                for (j = 0; j < data.size(); j++)
-                {
-                    muEnergy[j] = data[j][i];
-                }
-            }
-            if (key.find("PHOTO") != std::string::npos)
+    // ignore scans beyond the defined elements
+    if (nScans > (int) this->elementList.size())
+    {
+        nScans = (int) this->elementList.size();
+    }
+    // either all the elements are updated or none of them
+    std::vector<Element> previousElementList = this->elementList;
+    try
+    {
+        for (n = 0; n < nScans; n++)
+        {
+            labels = sf.getScanLabels(n);
+            data = sf.getScanData(n);
+            muEnergy.clear();
+            muPhotoelectric.clear();
+            muCoherent.clear();
+            muCompton.clear();
+            muPair.clear();
+            for (i = 0; i < labels.size(); i++)
             {
-                muPhotoelectric.resize(data.size());
-                for (j = 0; j < data.size(); j++)
+                key = this->epdl97.toUpperCaseString(labels[i]);
+                if (key.find("ENERGY") != std::string::npos)
                 {
-                    muPhotoelectric[j] = data[j][i];
+                    muEnergy.resize(data.size());
+                    for (j = 0; j < data.size(); j++)
+                    {
+                        muEnergy[j] = data[j][i];
+                    }
                 }
-            }
-            if (key.find("PAIR") != std::string::npos)
-            {
-                muPair.resize(data.size());
-                for (j = 0; j < data.size(); j++)
+                if (key.find("PHOTO") != std::string::npos)
                 {
-                    muPair[j] = data[j][i];
+                    muPhotoelectric.resize(data.size());
+                    for (j = 0; j < data.size(); j++)
+                    {
+                        muPhotoelectric[j] = data[j][i];
+                    }
                 }
-            }
-            if (key.find("COMPTON") != std::string::npos)
-            {
-                muCompton.resize(data.size());
-                for (j = 0; j < data.size(); j++)
+                if (key.find("PAIR") != std::string::npos)
                 {
-                    muCompton[j] = data[j][i];
+                    muPair.resize(data.size());
+                    for (j = 0; j < data.size(); j++)
+                    {
+                        muPair[j] = data[j][i];
+                    }
                 }
-            }
-            if (key.find("RAYLEIGH") != std::string::npos)
-            {
-                muCoherent.resize(data.size());
-                for (j = 0; j < data.size(); j++)
+                if (key.find("COMPTON") != std::string::npos)
                 {
-                    muCoherent[j] = data[j][i];
+                    muCompton.resize(data.size());
+                    for (j = 0; j < data.size(); j++)
+                    {
+                        muCompton[j] = data[j][i];
+                    }
                 }
-            }
-            if (key.find("COHERENT") != std::string::npos)
-            {
-                if (key.find("INCOHERENT") == std::string::npos)
+                if (key.find("RAYLEIGH") != std::string::npos)
                 {
                     muCoherent.resize(data.size());
                     for (j = 0; j < data.size(); j++)
@@ -756,20 +755,37 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
                         muCoherent[j] = data[j][i];
                     }
                 }
+                if (key.find("COHERENT") != std::string::npos)
+                {
+                    if (key.find("INCOHERENT") == std::string::npos)
+                    {
+                        muCoherent.resize(data.size());
+                        for (j = 0; j < data.size(); j++)
+                        {
+                            muCoherent[j] = data[j][i];
+                        }
+                    }
+                }
             }
-        }
-        // TODO check the sizes of all of them (except pair) are not zero
-        // muEnergy.clear();
-        // muPhotoelectric.clear();
-        // muCoherent.clear();
-        // muCompton.clear();
-        // muPair.clear();
-        this->setMassAttenuationCoefficients(this->elementList[n].getName(), \
-                                             muEnergy, \
-                                             muPhotoelectric, \
-                                             muCoherent, \
-                                             muCompton, \
-                                             muPair);
+            // TODO check the sizes of all of them (except pair) are not zero
+            // muEnergy.clear();
+            // muPhotoelectric.clear();
+            // muCoherent.clear();
+            // muCompton.clear();
+            // muPair.clear();
+            this->setMassAttenuationCoefficients(this->elementList[n].getName(), \
+                                                 muEnergy, \
+                                                 muPhotoelectric, \
+                                                 muCoherent, \
+                                                 muCompton, \
+                                                 muPair);
+        }
+    }
+    catch (...)
+    {
+        this->elementList.swap(previousElementList);
+        this->clearEscapeCache();
+        throw;
     }
 }
 
-- 
2.43.0


From fedabcec9aaab1c9840ce08e3ce9d7c0b645c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 39/81] fix: layers without density take the default density of
 their material

---
 src/fisx_layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index 16b509f..d54a25f 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -71,7 +71,7 @@ void Layer::setMaterial(const std::string & materialName)
 void Layer::setMaterial(const Material & material)
 {
     this->material = material;
-    if (this->density < 0.0)
+    if (this->density <= 0.0)
     {
         this->density = this->material.getDefaultDensity();
     }
-- 
2.43.0


From fe98333b77faa11ce088d962f4b07d08ef7de433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 40/81] fix: refuse configurations with a different number of
 energies and energy flags

---
 src/fisx_xrfconfig.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 6689670..3444e59 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -143,6 +143,13 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         std::fill(flagVector.begin(), flagVector.end(), 1);
     }
 
+    if ((mapDoubles["weight"].size() != mapDoubles["energy"].size()) || \
+        (intVector.size() != mapDoubles["energy"].size()) || \
+        (flagVector.size() != mapDoubles["energy"].size()))
+    {
+        throw std::invalid_argument("Number of weights or flags does not match number of beam energies");
+    }
+
     counter = 0;
     iIntVector = flagVector.size();
     while(iIntVector > 0)
-- 
2.43.0


From e726daaffc333c033aec7ebfcc74a7c88e0b84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 41/81] fix: materials and tables read from a configuration do
 not inherit from the previous one

---
 src/fisx_xrfconfig.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 3444e59..0d82e05 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -205,6 +205,12 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             splitString,
                                             std::string(),
                                             '.');
+            // forget the previous material
+            comment = "";
+            density = 1.0;
+            thickness = 1.0;
+            compoundList.clear();
+            compoundFractions.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -264,6 +270,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             '.');
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
@@ -320,6 +328,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                                             '.');
             useFlag = 0.0;
             comment = "";
+            energyList.clear();
+            transmissionList.clear();
             for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
             {
                 key = c_it->first;
-- 
2.43.0


From da62510f52310673baa6624fe9d973598aefe029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 42/81] fix: names with dots or blanks of the materials and
 tables of a configuration

---
 src/fisx_xrfconfig.cpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 0d82e05..9ae97ee 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -62,7 +62,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     std::vector<int>::size_type iIntVector;
     std::map<std::string, std::string>::const_iterator c_it;
     std::vector<Material>::size_type iMaterial;
-    std::vector<std::string> splitString;
+    std::string name;
     Material material;
     Layer layer;
     TransmissionTable transmissionTable;
@@ -200,11 +200,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is everything following the first dot
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             // forget the previous material
             comment = "";
             density = 1.0;
@@ -241,7 +238,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                     comment = c_it->second;
                 }
             }
-            material = Material(splitString[1], density, thickness, comment);
+            material = Material(name, density, thickness, comment);
             material.setComposition(compoundList, compoundFractions);
             this->materials.push_back(material);
         }
@@ -263,11 +260,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is everything following the first dot
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
             energyList.clear();
@@ -299,7 +293,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             if (useFlag > 0.0)
             {
                 transmissionTable = TransmissionTable();
-                transmissionTable.setTransmissionTable(energyList, transmissionList, splitString[1], comment);
+                transmissionTable.setTransmissionTable(energyList, transmissionList, name, comment);
                 this->userBeamFilters.push_back(transmissionTable);
             }
         }
@@ -321,11 +315,8 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         {
             sectionContents.clear();
             sectionContents = iniFile.readSection(stringVector[iStringVector], true);
-            splitString.clear();
-            iniFile.parseStringAsMultipleValues(stringVector[iStringVector],
-                                            splitString,
-                                            std::string(),
-                                            '.');
+            // the name is everything following the first dot
+            name = stringVector[iStringVector].substr(stringVector[iStringVector].find('.') + 1);
             useFlag = 0.0;
             comment = "";
             energyList.clear();
@@ -357,7 +348,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             if (useFlag > 0.0)
             {
                 transmissionTable = TransmissionTable();
-                transmissionTable.setTransmissionTable(energyList, transmissionList, splitString[1], comment);
+                transmissionTable.setTransmissionTable(energyList, transmissionList, name, comment);
                 this->userAttenuators.push_back(transmissionTable);
             }
         }
-- 
2.43.0


From 1d7ce5dd44fa60613d0798fb25f308a52ba5986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 43/81] fix: initialize the reference layer and refuse negative
 ones

---
 src/fisx_xrfconfig.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 9ae97ee..ce5adc0 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -36,6 +36,7 @@ namespace fisx
 
 XRFConfig::XRFConfig()
 {
+    this->referenceLayer = 0;
     this->setGeometry(45.0, 45.0, 90.);
 }
 
@@ -555,6 +556,10 @@ void XRFConfig::setUserBeamFilters(const std::vector<TransmissionTable> & transm
 
 void XRFConfig::setSample(const std::vector<Layer> & layers, const int & referenceLayer)
 {
+    if (referenceLayer < 0)
+    {
+        throw std::invalid_argument("Reference layer cannot be negative");
+    }
     if (referenceLayer >= (int) layers.size())
     {
         throw std::invalid_argument("Reference layer must be smaller than number of layers");
-- 
2.43.0


From a39f0b4add7c44b8b53736474cb038813c5ca3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 44/81] fix: do not read beyond the end of incomplete
 attenuators of a configuration

---
 src/fisx_xrfconfig.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index ce5adc0..bd5b89a 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -380,6 +380,15 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
         }
         if (doubleVector[0] > 0.0)
         {
+            if (doubleVector.size() < 4)
+            {
+                throw std::invalid_argument("Incomplete description of " + c_it->first);
+            }
+            if (doubleVector.size() == 4)
+            {
+                // the funny factor was not present in old configuration files
+                doubleVector.push_back(1.0);
+            }
             if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
@@ -486,6 +495,10 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
             }
             if (doubleVector[0] > 0.0)
             {
+                    if (doubleVector.size() < 4)
+                    {
+                        throw std::invalid_argument("Incomplete description of " + c_it->first);
+                    }
                     //BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                     layer = Layer(c_it->first, doubleVector[2], doubleVector[3]);
                     layer.setMaterial(stringVector[1]);
-- 
2.43.0


From 0c5ad526b01c8fe4dc47e07122cacbb0ae18f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 45/81] fix: beam filters of a configuration with more than one
 digit

---
 src/fisx_xrfconfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index bd5b89a..4130cb3 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -389,7 +389,7 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
                 // the funny factor was not present in old configuration files
                 doubleVector.push_back(1.0);
             }
-            if (c_it->first.substr(0, c_it->first.size() - 1) == "BeamFilter")
+            if (c_it->first.substr(0, 10) == "BeamFilter")
             {
                 // BeamFilter0 = 0, -, 0.0, 0.0, 1.0
                 // std::cout << "BEAMFILTER" << std::endl;
-- 
2.43.0


From 3282caab90ed54690b77ea6dd791656bb7979fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 46/81] fix: take the layers of a configuration in numerical
 order

---
 src/fisx_xrfconfig.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 4130cb3..7a28bed 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -34,6 +34,32 @@
 namespace fisx
 {
 
+// Natural order of the keys: Layer2 goes before Layer10
+static bool layerKeyLess(const std::string & a, const std::string & b)
+{
+    std::string::size_type i, j;
+
+    i = a.find_last_not_of("0123456789") + 1;
+    j = b.find_last_not_of("0123456789") + 1;
+    if ((a.substr(0, i) != b.substr(0, j)) || (a.size() == i) || (b.size() == j))
+    {
+        return a < b;
+    }
+    while ((i + 1 < a.size()) && (a[i] == '0'))
+    {
+        i++;
+    }
+    while ((j + 1 < b.size()) && (b[j] == '0'))
+    {
+        j++;
+    }
+    if ((a.size() - i) != (b.size() - j))
+    {
+        return (a.size() - i) < (b.size() - j);
+    }
+    return a.substr(i) < b.substr(j);
+}
+
 XRFConfig::XRFConfig()
 {
     this->referenceLayer = 0;
@@ -481,8 +507,16 @@ void XRFConfig::readConfigurationFromFile(const std::string & fileName)
     {
         sectionContents.clear();
         sectionContents = iniFile.readSection("multilayer", false);
+        std::vector<std::string> layerKeys;
+        std::vector<std::string>::size_type iLayerKey;
         for (c_it = sectionContents.begin(); c_it != sectionContents.end(); ++c_it)
         {
+            layerKeys.push_back(c_it->first);
+        }
+        std::sort(layerKeys.begin(), layerKeys.end(), layerKeyLess);
+        for (iLayerKey = 0; iLayerKey < layerKeys.size(); iLayerKey++)
+        {
+            c_it = sectionContents.find(layerKeys[iLayerKey]);
             // std::cout << c_it->first << " " << c_it->second << std::endl;
             content = c_it->second;
             iniFile.parseStringAsMultipleValues(content, doubleVector, -1.0);
-- 
2.43.0


From 30a452f62d73daa920588bd3154d39a2f8806040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 47/81] fix: a configuration file completely defines the
 configuration or is refused

---
 src/fisx_xrfconfig.cpp | 9 +++++++++
 src/fisx_xrfconfig.h   | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 7a28bed..4d3c120 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -74,6 +74,15 @@ void XRFConfig::setGeometry(const double & alphaIn, const double & alphaOut, con
 }
 
 void XRFConfig::readConfigurationFromFile(const std::string & fileName)
+{
+    // start from the default values in order to depend just on the given file
+    // and do not modify the current configuration if the file cannot be used
+    XRFConfig newConfiguration;
+    newConfiguration.parseConfigurationFile(fileName);
+    *this = newConfiguration;
+}
+
+void XRFConfig::parseConfigurationFile(const std::string & fileName)
 {
     SimpleIni iniFile = SimpleIni(fileName);
     std::map<std::string, std::string> sectionContents;
diff --git a/src/fisx_xrfconfig.h b/src/fisx_xrfconfig.h
index 36c7984..4893e80 100644
--- a/src/fisx_xrfconfig.h
+++ b/src/fisx_xrfconfig.h
@@ -149,6 +149,7 @@ public:
    const int & getReferenceLayer() const {return this->referenceLayer;};
 
 private:
+    void parseConfigurationFile(const std::string & fileName);
     Beam beam;
     std::vector<Material> materials;
     std::vector<Layer> beamFilters;
-- 
2.43.0


From cab7775d5914cc3fcc5a0ea0758703359c3064f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 48/81] fix: ordering of the layer keys of a configuration

---
 src/fisx_xrfconfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_xrfconfig.cpp b/src/fisx_xrfconfig.cpp
index 4d3c120..5d7da8d 100644
--- a/src/fisx_xrfconfig.cpp
+++ b/src/fisx_xrfconfig.cpp
@@ -41,9 +41,9 @@ static bool layerKeyLess(const std::string & a, const std::string & b)
 
     i = a.find_last_not_of("0123456789") + 1;
     j = b.find_last_not_of("0123456789") + 1;
-    if ((a.substr(0, i) != b.substr(0, j)) || (a.size() == i) || (b.size() == j))
+    if (a.substr(0, i) != b.substr(0, j))
     {
-        return a < b;
+        return a.substr(0, i) < b.substr(0, j);
     }
     while ((i + 1 < a.size()) && (a[i] == '0'))
     {
-- 
2.43.0


From ba44612247ad959d687a7b991aaaadcca22461ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 49/81] fix: exponential integral at one and at negative
 arguments

---
 src/fisx_math.cpp | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 7d3724a..10c1cf2 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -52,19 +52,27 @@ double Math::E1(const double & x)
         //
         //
         // Euler's gamma = 0.577215664901532860;
-        // I decide to evaluate just 10 terms of the series
-        //
-        // TODO: Unroll the loop with n * factorial(n) already computed.
+        // All the terms have the same sign, add them till they are negligible
         double result;
-        double factorial[11] = {1.0, 1.0, 2.0, 6.0, 24., 120.0, 720., 5040., 40320., 362880., 3628800.};
-        result = -0.577215664901532860;
-        for(int n = 10; n > 0; --n)
+        double power;
+        if (x < -40)
+        {
+            return std::exp(-x) * Math::deBoerD(x);
+        }
+        result = 0.0;
+        power = 1.0;
+        for(int n = 1; n < 500; ++n)
         {
-            result -= pow(-x, n) /(n * factorial[n]);
+            power *= -x / n;
+            result += power / n;
+            if ((power / n) < (1.0e-17 * result))
+            {
+                break;
+            }
         }
-        return result - std::log(-x);
+        return -0.577215664901532860 - std::log(-x) - result;
     }
-    if(x < 1)
+    if(x <= 1)
     {
         return Math::AS_5_1_53(x) - std::log(x);
     }
@@ -158,6 +166,22 @@ double Math::AS_5_1_56(const double & x)
 
 double Math::deBoerD(const double & x)
 {
+    if (x < -40)
+    {
+        // AS 5.1.51 (asymptotic expansion), the exponential of -x would overflow
+        double result = 1.0;
+        double term = 1.0;
+        for (int n = 1; n < 40; ++n)
+        {
+            term *= n / (-x);
+            result += term;
+            if (term < 1.0e-17)
+            {
+                break;
+            }
+        }
+        return result / x;
+    }
 
 #ifndef NDEBUG
     // AS 5.1.19
-- 
2.43.0


From 3508bdfc70c58bac78ba9664aa9e5971376cc8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 50/81] fix: accuracy of the exponential integral needed by the
 enhancement of thin layers

---
 src/fisx_math.cpp | 16 +++++++++-------
 src/fisx_math.h   |  4 ++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 10c1cf2..4064687 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -124,21 +124,23 @@ double Math::AS_5_1_53(const double & x)
 {
     // Returns E1(x) + log(x)
     // Euler's gamma = 0.577215664901532860
-    double a[6] = {-0.57721566, 0.99999193, -0.24991055,\
-                    0.05519968, -0.00976004, 0.00107857};
+    // The coefficients of the polynomial given by Abramowitz and Stegun limit the accuracy to
+    // 2.0e-7 what is not enough to calculate the differences needed by thin layers.
+    // Use the series AS 5.1.11 that converges fast in the range of validity.
     double result;
+    double power;
     if (x > 1)
     {
         throw std::invalid_argument("AS_5_1_53(x) Invalid argument. 0 < x <= 1");
     }
 
-    result = a[5] * x;
-
-    for (int i = 4; i > 0; --i)
+    result = -0.577215664901532860;
+    power = -1.0;
+    for (int n = 1; n < 25; ++n)
     {
-        result = (result + a[i]) * x;
+        power *= -x / n;
+        result += power / n;
     }
-    result = result + a[0];
     return result;
 }
 
diff --git a/src/fisx_math.h b/src/fisx_math.h
index ba07d89..aaa1798 100644
--- a/src/fisx_math.h
+++ b/src/fisx_math.h
@@ -174,8 +174,8 @@ class Math
         Recipes.
         */
         static double _deBoerD(const double &x, \
-                        const double & epsilon = 1.0e-7, \
-                        const int & maxIter = 100);
+                        const double & epsilon = 1.0e-15, \
+                        const int & maxIter = 1000);
 };
 
 } // namespace fisx
-- 
2.43.0


From e1dfce7c09081eb144122a39c0b412b628c50937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 51/81] fix: intralayer enhancement when the attenuation of
 both lines is the same

---
 src/fisx_math.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 4064687..6a58827 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -300,7 +300,15 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
     }
     */
 
-    tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));
+    if (mu2 == muj)
+    {
+        // limit of the two terms that diverge
+        tmpDouble = (-0.577215664901532860 - std::log(muj * d)) / (mu2 * (mu1 + mu2));
+    }
+    else
+    {
+        tmpDouble = Math::deBoerD((muj - mu2) * d) / (mu2 * (mu1 + mu2));
+    }
     tmpDouble = tmpDouble -(Math::deBoerD(muj * d) / (mu1 * mu2)) + \
                  (Math::deBoerD((muj + mu1) * d) / (mu1 * (mu1 + mu2)));
     tmpDouble *= std::exp(-(mu1 + muj) * d);
@@ -312,7 +320,7 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
                       std::log(1.0 - (mu2 / muj));
     }
-    else
+    else if (mu2 > muj)
     {
         tmpDouble += (std::exp(-(mu1 + mu2) * d) / (mu2 * (mu1 + mu2))) * \
                       std::log((mu2 / muj) - 1.0);
-- 
2.43.0


From 5501bfdb9e1bf10b3993886dc7473cf56fd707ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 52/81] fix: overflow of the enhancement due to thick layers on
 top of other layers

---
 src/fisx_math.cpp       | 18 ++++++++++--------
 src/fisx_math.h         |  7 +++++--
 src/fisx_multilayer.cpp | 13 ++++++++-----
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 6a58827..e970dcf 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -347,7 +347,8 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 }
 
 double Math::deBoerX(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubj_dt)
+                     const double & mu1j, const double & mu2j, const double & mubj_dt, \
+                     const double & exponent)
 {
      if ((false))
      {
@@ -407,16 +408,17 @@ double Math::deBoerX(const double & p, const double & q, const double & d1, cons
      }
      else
      {
-        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt) - \
-               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt) + \
-               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt);
+        return Math::deBoerV(p, q, d1, d2, mu1j, mu2j, mubj_dt, exponent) - \
+               Math::deBoerV(p, q, d1, 0.0, mu1j, mu2j, mubj_dt, exponent) - \
+               Math::deBoerV(p, q, 0.0, d2, mu1j, mu2j, mubj_dt, exponent) + \
+               Math::deBoerV(p, q, 0.0, 0.0, mu1j, mu2j, mubj_dt, exponent);
 
     }
 }
 
 double Math::deBoerV(const double & p, const double & q, const double & d1, const double & d2, \
-                     const double & mu1j, const double & mu2j, const double & mubjdt)
+                     const double & mu1j, const double & mu2j, const double & mubjdt, \
+                     const double & exponent)
 {
     double tmpDouble1;
     double tmpDouble2;
@@ -434,7 +436,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         if (tmpDouble2 < 0)
             tmpDouble2 = - tmpDouble2;
         tmpHelp = (mu2j / p) * std::log(tmpDouble2) + (mu1j/q) * std::log(tmpDouble1);
-        tmpHelp = -tmpHelp / (p * mu1j + q * mu2j);
+        tmpHelp = -std::exp(exponent) * tmpHelp / (p * mu1j + q * mu2j);
         if (!Math::isFiniteNumber(tmpHelp))
         {
             std::cout << "p    " << p << std::endl;
@@ -505,7 +507,7 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
         std::cout << " error 4 " << std::endl;
         throw std::runtime_error("error4");
     }
-    tmpHelp = std::exp((q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) * (tmpDouble1 + tmpDouble2);
+    tmpHelp = std::exp(exponent + (q - mu1j) * d1 - (p + mu2j) * d2 - mubjdt) * (tmpDouble1 + tmpDouble2);
     if (!Math::isFiniteNumber(tmpHelp))
     {
         std::cout << "p    " << p << std::endl;
diff --git a/src/fisx_math.h b/src/fisx_math.h
index aaa1798..75df210 100644
--- a/src/fisx_math.h
+++ b/src/fisx_math.h
@@ -101,16 +101,19 @@ class Math
         mu_1_j is the mass attenuation coefficient of fluorescing layer at j excitation energy
         mu_2_j is the mass attenuation coefficient of layer j at j excitation energy
         mu_b_d_t is the sum of the products mu * density * thickness of layers between layer i and j
+        exponent allows to multiply the result by exp(exponent) without overflows
         */
         static double deBoerX(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t = 0.0);
+                              const double & mu_b_j_d_t = 0.0, \
+                              const double & exponent = 0.0);
 
         static double deBoerV(const double & p, const double & q, \
                               const double & d1, const double & d2, \
                               const double & mu_1_j, const double & mu_2_j, \
-                              const double & mu_b_j_d_t);
+                              const double & mu_b_j_d_t, \
+                              const double & exponent = 0.0);
 
         /*!
         Returns false is x is NaN
diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 1db398e..35e32dc 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -896,8 +896,9 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                             if (iLayer > jLayer)
                             {
                                 // interlayer case b)
-                                double layerFactor;
-                                layerFactor = std::exp(-mu_2_lambda * density_2 * thickness_2/sinAlphaIn);
+                                // logarithm of the transmission of the incident beam through jLayer
+                                double layerExponent;
+                                layerExponent = -mu_2_lambda * density_2 * thickness_2/sinAlphaIn;
                                 /*
                                 This test has been removed in favour of the one dealing with the relative
                                 weights of each layer. Indeed, the relative amount of secondary excitation
@@ -995,7 +996,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
                                             bLayer++;
                                         }
-                                        tmpDouble = layerFactor * sampleLayerRates[jLayer][iLambda];
+                                        tmpDouble = sampleLayerRates[jLayer][iLambda];
                                         if ((mu_2_lambda/sinAlphaIn) == mu_2_j)
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/(0.99999*sinAlphaIn), \
                                                                   -mu_1_i/sinAlphaOut, \
@@ -1003,7 +1004,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  layerExponent);
                                         else
                                             tmpDouble *= Math::deBoerX(-mu_2_lambda/sinAlphaIn, \
                                                                   -mu_1_i/sinAlphaOut, \
@@ -1011,7 +1013,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  layerExponent);
                                         tmpDouble *= elementMassFractionFactor * (0.5/sinAlphaIn);
                                         tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
                                         tmpStringStream.str(std::string());
-- 
2.43.0


From 52fe5f269c51333a7cdbc6f5820e5adcaef8512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 53/81] fix: refuse fluorescence requests with inconsistent
 number of elements, families and layers

---
 src/fisx_multilayer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 35e32dc..04885c3 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -48,6 +48,14 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                const double & secondaryCalculationLimit, \
                                                const Beam & overwritingBeam) const
 {
+    if (familyList.size() != elementList.size())
+    {
+        throw std::invalid_argument("Number of peak families does not match number of elements");
+    }
+    if ((layerList.size() != elementList.size()) && (layerList.size() != 1))
+    {
+        throw std::invalid_argument("Number of layers does not match number of elements");
+    }
     // get all the needed configuration
     std::vector<std::vector<double> >actualRays = overwritingBeam.getBeamAsDoubleVectors();
     if (actualRays[0].size() < 1)
-- 
2.43.0


From a9f68cc367cf6c7f0d98e4438def49a1b77c7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 54/81] fix: lines requested several times are not added up

---
 src/fisx_multilayer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 04885c3..f506b15 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -478,6 +478,22 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                     // no need to calculate this layer
                     continue;
                 }
+                // the same information can be requested several times
+                std::vector<std::string>::size_type iPrevious;
+                for (iPrevious = 0; iPrevious < iElement; iPrevious++)
+                {
+                    int previousLayer = (layerList.size() > 1) ? layerList[iPrevious] : layerList[0];
+                    if ((elementList[iPrevious] == elementName) && (familyList[iPrevious] == lineFamily) && \
+                        ((previousLayer < 0) || (previousLayer == (int) iLayer)))
+                    {
+                        break;
+                    }
+                }
+                if (iPrevious < iElement)
+                {
+                    // already calculated
+                    continue;
+                }
                 elementMassFractionFactor = 1.0;
                 if(true)
                 {
-- 
2.43.0


From fb6fb8f18d7953039a0ad5b6df8cfed90a75c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 55/81] fix: tertiary excitation does not report layers that
 were not requested

---
 src/fisx_multilayer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index f506b15..21c8248 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -1127,6 +1127,7 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         // Tertiary will not be correct if the peaks of the sample elements are not
         // included in the list of peaks
         std::map<std::string, std::map<int, std::map<std::string, std::map<std::string, double> > > >::iterator actualResultIt;
+        std::map<int, std::map<std::string, std::map<std::string, double> > >::iterator layerIt;
         std::map<std::string, std::map<std::string, double> >::iterator c_it;
         std::map<std::string, std::map<std::string, double> >::iterator it;
         std::map<std::string, std::map<std::string, double> >::iterator it2;
@@ -1140,8 +1141,10 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
             ele = actualResultIt->first.substr(0, actualResultIt->first.find(' '));
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
+                // only the layers with results are present
+                iLayer = layerIt->first;
                 for (it = actualResultIt->second[iLayer].begin(); \
                      it != actualResultIt->second[iLayer].end(); ++it)
                 {
@@ -1183,8 +1186,10 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
 
         for (actualResultIt = actualResult.begin(); actualResultIt != actualResult.end(); ++actualResultIt)
         {
-            for (iLayer = 0; iLayer < actualResultIt->second.size(); iLayer++)
+            for (layerIt = actualResultIt->second.begin(); layerIt != actualResultIt->second.end(); ++layerIt)
             {
+                // only the layers with results are present
+                iLayer = layerIt->first;
                 for (it = actualResultIt->second[iLayer].begin(); \
                      it != actualResultIt->second[iLayer].end(); ++it)
                 {
-- 
2.43.0


From 483710cbdd6738892e653a2e1b83014a5aa79ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:33 +0000
Subject: [PATCH 56/81] fix: binding energies loaded from a file replace all
 the previous ones

Loading a second binding energies file kept the energies of those shells
that are only present in the first one (Q1 of the EADL97 file in a library
built from BindingEnergies.dat).
---
 src/fisx_epdl97.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index 2368fc2..e79c3ba 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -143,6 +143,8 @@ void EPDL97::loadBindingEnergies(std::string fileName)
         throw std::ios_base::failure("EPDL97: Number of values does not match number of labels");
     }
 
+    // forget any energies from a previously loaded file
+    this->bindingEnergy.clear();
     this->bindingEnergy.resize(tmpValues.size());
 
     for (i = 0; i < this->bindingEnergy.size(); i++)
-- 
2.43.0


From 909aeda181eb76899d62fd9980426638a41075a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 57/81] fix: coefficient of the error function

---
 src/fisx_math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index e970dcf..e7ff0c2 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -606,7 +606,7 @@ double Math::erf(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
@@ -624,7 +624,7 @@ double Math::erfc(const double & x)
 
     z = std::fabs(x);
     t = 1.0 / (1.0 + 0.5 * z);
-    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.3740916 + \
+    r = t * std::exp(- z * z - 1.26551223 + t * (1.00002368 + t * (0.37409196 + \
         t * (0.09678418 + t * (-0.18628806 + t * (0.27886807 + t * (-1.13520398 + \
         t * (1.48851587 + t * (-0.82215223 + t * 0.17087277)))))))));
     if (x < 0)
-- 
2.43.0


From 99f2e331fb0bf8a3b6a1385c78902f59d1a1ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 58/81] fix: order of the coefficients of the rational
 approximation AS 5.1.56

---
 src/fisx_math.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index e7ff0c2..8a7080c 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -155,9 +155,9 @@ double Math::AS_5_1_56(const double & x)
     {
 		throw std::invalid_argument("AS_5_1_56(x) Invalid argument. 1 <= x ");
     }
-    num = a[3] * x;
-    den = b[3] * x;
-    for (int i = 2; i >= 0; --i)
+    num = 1.0;
+    den = 1.0;
+    for (int i = 0; i < 4; ++i)
     {
         num = (num * x )+ a[i];
         den = (den * x )+ b[i];
-- 
2.43.0


From 4a6608abba88e52e75b5eb8e694214c1f80867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 59/81] fix: condition to consider a layer as thick in the
 intralayer enhancement

---
 src/fisx_math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 8a7080c..f32281d 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -261,7 +261,7 @@ double Math::deBoerL0(const double & mu1, const double & mu2, const double & muj
 
     // express the thickness in g/cm2
     d = thickness * density;
-    if (((mu1 + mu2) * d) > 10.)
+    if ((((mu1 + mu2) * d) > 10.) && (((mu1 + muj) * d) > 10.))
     {
         // thick target
         tmpDouble = (muj/mu1) * std::log(1 + mu1/muj) / ((mu1 + mu2) * muj);
-- 
2.43.0


From dd7bc8b43c7b312169aac3f88e2a6605edc33001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 60/81] fix: accuracy of the exponential integrals of higher
 order for large arguments

---
 src/fisx_math.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index f32281d..44fcb14 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -107,6 +107,28 @@ double Math::En(const int & n, const double & x)
             // special value
             return 1.0 / (n - 1);
         }
+        else if (x > 1)
+        {
+            // The recurrence relation loses all the accuracy for large arguments.
+            // Continued fraction AS 5.1.22 evaluated with the modified Lentz algorithm
+            double b = x + n;
+            double C = 1.0e300;
+            double D = 1.0 / b;
+            double result = D;
+            for (int i = 1; i < 1000; i++)
+            {
+                double a = -i * (n - 1.0 + i);
+                b = b + 2;
+                D = 1.0 / (a * D + b);
+                C = b + a / C;
+                result *= C * D;
+                if (std::abs(C * D - 1) < 1.0e-15)
+                {
+                    break;
+                }
+            }
+            return result * std::exp(-x);
+        }
         else
         {
             // Use recurrence relation
-- 
2.43.0


From 8b948e3d721f8774176ef76f34cff5e711d1f505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 61/81] fix: interlayer enhancement when attenuation
 coefficients coincide

---
 src/fisx_math.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fisx_math.cpp b/src/fisx_math.cpp
index 44fcb14..c58913f 100644
--- a/src/fisx_math.cpp
+++ b/src/fisx_math.cpp
@@ -457,6 +457,11 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
             tmpDouble1 = - tmpDouble1;
         if (tmpDouble2 < 0)
             tmpDouble2 = - tmpDouble2;
+        // the divergent terms cancel each other in deBoerX
+        if (tmpDouble1 == 0)
+            tmpDouble1 = 1.0;
+        if (tmpDouble2 == 0)
+            tmpDouble2 = 1.0;
         tmpHelp = (mu2j / p) * std::log(tmpDouble2) + (mu1j/q) * std::log(tmpDouble1);
         tmpHelp = -std::exp(exponent) * tmpHelp / (p * mu1j + q * mu2j);
         if (!Math::isFiniteNumber(tmpHelp))
@@ -485,8 +490,12 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
     // X (p, q, d1, inf) = - V(d1, 0) + V(0,0)
     // and for small values of d1 (thin layer on thick substrate) that gives
     // X (p, q, d1, inf)X (p, q, d1, inf) is about (d1/p) * std::log(1.0 + (p/mu2j))
-    tmpDouble1 = (mu2j /(p * (p * mu1j + q * mu2j))) * \
-                 Math::deBoerD((1.0 + (p / mu2j)) * (mu1j*d1 + mubjdt + mu2j*d2));
+    // When the argument of deBoerD is zero, the divergent term cancels in deBoerX
+    tmpDouble1 = mu2j /(p * (p * mu1j + q * mu2j));
+    if ((1.0 + (p / mu2j)) == 0)
+        tmpDouble1 *= -0.577215664901532860 - std::log(mu1j*d1 + mubjdt + mu2j*d2);
+    else
+        tmpDouble1 *= Math::deBoerD((1.0 + (p / mu2j)) * (mu1j*d1 + mubjdt + mu2j*d2));
     if (!Math::isFiniteNumber(tmpDouble1))
     {
         std::cout << "p    " << p << std::endl;
@@ -501,8 +510,11 @@ double Math::deBoerV(const double & p, const double & q, const double & d1, cons
     }
 
     tmpHelp = mu1j * d1 + mubjdt + mu2j * d2;
-    tmpDouble2 = (mu1j / (q * (p * mu1j + q * mu2j))) * \
-                  Math::deBoerD(( 1.0 - (q / mu1j)) * tmpHelp);
+    tmpDouble2 = mu1j / (q * (p * mu1j + q * mu2j));
+    if ((1.0 - (q / mu1j)) == 0)
+        tmpDouble2 *= -0.577215664901532860 - std::log(tmpHelp);
+    else
+        tmpDouble2 *= Math::deBoerD(( 1.0 - (q / mu1j)) * tmpHelp);
     if (!Math::isFiniteNumber(tmpDouble2))
     {
         std::cout << "p    " << p << std::endl;
-- 
2.43.0


From 8038d7d411fdce7b93a7ad75937869860187f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 62/81] fix: enhancement from below lost for thick layers seen
 at grazing angles

---
 src/fisx_multilayer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 21c8248..2e44e07 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -878,10 +878,12 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                             }
                                             bLayer++;
                                         }
-                                        tmpDouble = std::exp(-mu_1_i * density_1 * thickness_1/sinAlphaOut);
-                                        if (tmpDouble < 0.001)
+                                        // Neither the emission from the bottom of the layer can escape nor
+                                        // the exciting radiation can reach the top of the layer
+                                        if ((std::exp(-mu_1_i * density_1 * thickness_1/sinAlphaOut) < 0.001) && \
+                                            (std::exp(-mu_1_j * density_1 * thickness_1) < 0.001))
                                             continue;
-                                        tmpDouble *= sampleLayerRates[jLayer][iLambda];
+                                        tmpDouble = sampleLayerRates[jLayer][iLambda];
                                         if (-(mu_2_lambda/sinAlphaIn) == mu_2_j)
                                             tmpDouble *= Math::deBoerX(mu_2_lambda/(0.99999*sinAlphaIn), \
                                                                   mu_1_i/sinAlphaOut, \
@@ -889,7 +891,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  -mu_1_i * density_1 * thickness_1/sinAlphaOut);
                                         else
                                             tmpDouble *= Math::deBoerX(mu_2_lambda/sinAlphaIn, \
                                                                   mu_1_i/sinAlphaOut, \
@@ -897,7 +900,8 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
                                                                   density_2 * thickness_2, \
                                                                   mu_1_j, \
                                                                   mu_2_j, \
-                                                                  mu_b_j_d_t);
+                                                                  mu_b_j_d_t, \
+                                                                  -mu_1_i * density_1 * thickness_1/sinAlphaOut);
                                         tmpDouble *= elementMassFractionFactor * (0.5/sinAlphaIn);
                                         tmpDouble *= tmpExcitationFactors[c_it->first]["rate"];
                                         tmpStringStream.str(std::string());
-- 
2.43.0


From 9bc5bc14533055dcfece6cf61e1be1a5e74f4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 63/81] fix: refuse layers beyond the sample in the geometric
 efficiency

---
 src/fisx_xrf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index ca652ab..105bd78 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -169,6 +169,10 @@ double XRF::getGeometricEfficiency(const int & sampleLayerIndex) const
     }
     if (sampleLayerIndex != referenceLayerIndex)
     {
+        if (sampleLayerIndex >= (int) sample.size())
+        {
+            throw std::invalid_argument("Sample layer index beyond the number of layers in getGeometricEfficiency");
+        }
         if (sampleLayerIndex > referenceLayerIndex)
         {
             for (iLayer = (std::vector<Layer>::size_type) referenceLayerIndex; iLayer < (std::vector<Layer>::size_type) sampleLayerIndex; iLayer++)
-- 
2.43.0


From 5560e3aca3c7ec3a3213b813ffdbf48fdcf86e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 64/81] fix: refuse layers with negative density and thickness

---
 src/fisx_layer.cpp | 4 ++--
 src/fisx_xrf.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fisx_layer.cpp b/src/fisx_layer.cpp
index d54a25f..815135b 100644
--- a/src/fisx_layer.cpp
+++ b/src/fisx_layer.cpp
@@ -143,7 +143,7 @@ double Layer::getTransmission(const double & energy, const Elements & elements,
         }
         tmpDouble = (this->density * this->thickness) / tmpDouble;
     }
-    if(tmpDouble <= 0.0)
+    if((this->density <= 0.0) || (this->thickness <= 0.0) || (tmpDouble <= 0.0))
     {
         std::string msg;
         msg = "Layer " + this->name + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
@@ -174,7 +174,7 @@ std::vector<double> Layer::getTransmission(const std::vector<double> & energy, c
         tmpDouble = this->density * this->thickness / tmpDouble;
     }
 
-    if(tmpDouble <= 0.0)
+    if((this->density <= 0.0) || (this->thickness <= 0.0) || (tmpDouble <= 0.0))
     {
         std::string msg;
         msg = "Layer " + this->name + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
diff --git a/src/fisx_xrf.cpp b/src/fisx_xrf.cpp
index 105bd78..b5e3afa 100644
--- a/src/fisx_xrf.cpp
+++ b/src/fisx_xrf.cpp
@@ -351,7 +351,7 @@ std::vector<double> XRF::getLayerTransmission(const Layer & layer,
         tmpDouble = layer.getDensity() * layer.getThickness() / tmpDouble;
     }
 
-    if(tmpDouble <= 0.0)
+    if((layer.getDensity() <= 0.0) || (layer.getThickness() <= 0.0) || (tmpDouble <= 0.0))
     {
         std::string msg;
         msg = "Layer " + layer.getName() + " thickness is " + elements.toString(tmpDouble) + " g/cm2";
-- 
2.43.0


From 250a076082f3243defec56a2558a584fcf702427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 65/81] fix: refuse sample layers without density or thickness

---
 src/fisx_multilayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fisx_multilayer.cpp b/src/fisx_multilayer.cpp
index 2e44e07..e129f8c 100644
--- a/src/fisx_multilayer.cpp
+++ b/src/fisx_multilayer.cpp
@@ -95,6 +95,11 @@ std::map<std::string, std::map<int, std::map<std::string, std::map<std::string,
     // use a cache for the sample layers composition
     for (iLayer = 0; iLayer < sample.size(); iLayer++)
     {
+        if ((sample[iLayer].getDensity() <= 0.0) || (sample[iLayer].getThickness() <= 0.0))
+        {
+            msg = "Sample layer " + sample[iLayer].getName() + " without density or thickness";
+            throw std::runtime_error( msg );
+        }
         sampleLayerCompositionList.push_back(this->getLayerComposition(sample[iLayer], elementsLibrary));
     }
 
-- 
2.43.0


From 7e8bd2562f7bdc527c7dd28d2dce54f2d0249b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 66/81] fix: blanks inside and around the values of an ini file

---
 src/fisx_simpleini.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/fisx_simpleini.cpp b/src/fisx_simpleini.cpp
index f2cbea5..67ec7b1 100644
--- a/src/fisx_simpleini.cpp
+++ b/src/fisx_simpleini.cpp
@@ -34,6 +34,19 @@
 namespace fisx
 {
 
+// the blanks surrounding a value do not belong to it
+static void trimBlanks(std::string & text)
+{
+    std::string::size_type last = text.find_last_not_of(" \n\r\t");
+    if (last == text.npos)
+    {
+        text = "";
+        return;
+    }
+    text = text.substr(0, last + 1);
+    text = text.substr(text.find_first_not_of(" \n\r\t"));
+}
+
 SimpleIni::SimpleIni()
 {
     this->fileName = "";
@@ -140,6 +153,7 @@ void SimpleIni::readFileName(std::string fileName)
             }
 
             tmpString = "";
+            content = "";
             nQuotes = 0;
             equalPosition = 0;
             for(i=0; i < trimmedLine.size(); i++)
@@ -148,12 +162,14 @@ void SimpleIni::readFileName(std::string fileName)
                 {
                     nQuotes++;
                     tmpString += trimmedLine[i];
+                    content += trimmedLine[i];
                     continue;
                 }
                 if (nQuotes && (nQuotes % 2))
                 {
                     // in between quotes
                     tmpString += trimmedLine[i];
+                    content += trimmedLine[i];
                     continue;
                 }
                 else
@@ -163,6 +179,7 @@ void SimpleIni::readFileName(std::string fileName)
                         // ignore everything from here
                         break;
                     }
+                    content += trimmedLine[i];
                     if (equalPosition == 0)
                     {
                         if (!isspace(trimmedLine[i]))
@@ -210,6 +227,7 @@ void SimpleIni::readFileName(std::string fileName)
                 }
                 key = tmpString.substr(p0, length);
                 content = tmpString.substr(p1 + 1, tmpString.size() - p1 - 1);
+                trimBlanks(content);
                 newContents[mainKey][key] = content;
             }
             else
@@ -217,7 +235,8 @@ void SimpleIni::readFileName(std::string fileName)
                 // continuation line
                 if ((key.size() > 0) && (mainKey.size() > 0))
                 {
-                    newContents[mainKey][key] += tmpString;
+                    trimBlanks(content);
+                    newContents[mainKey][key] += content;
                 }
                 else
                 {
-- 
2.43.0


From 0bbe467c8122f869db57bcbc10d7ee79abcd422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:51 +0000
Subject: [PATCH 67/81] fix: a data directory that cannot be read leaves the
 EPDL97 data unchanged

---
 src/fisx_epdl97.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index e79c3ba..eae61ff 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -61,17 +61,12 @@ EPDL97::EPDL97(std::string directoryName)
 
 void EPDL97::setDataDirectory(std::string directoryName)
 {
-    this->bindingEnergy.clear();
-    this->muInputLabels.clear();
-    this->muInputValues.clear();
-    this->muLabelToIndex.clear();
-    this->muEnergy.clear();
-    this->initialized = false;
-    this->bindingEnergiesFile = "Unknown";
-    this->crossSectionsFile = "Unknown";
-    this->loadData(directoryName);
-
+    // the present data are kept if the new ones cannot be read
+    EPDL97 newData;
+    newData.loadData(directoryName);
+    *this = newData;
 }
+
 void EPDL97::loadData(std::string directoryName)
 {
     std::string BINDING_ENERGIES="EADL97_BindingEnergies.dat";
-- 
2.43.0


From db9179e63846027b2e0b8a4747965466bc9284b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:34 +0000
Subject: [PATCH 68/81] fix: errors of layers and of the EPDL97 binding
 energies terminated the Python interpreter

---
 python/cython/EPDL97.pxd | 2 +-
 python/cython/Layer.pxd  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/cython/EPDL97.pxd b/python/cython/EPDL97.pxd
index ac0f035..dfe933a 100644
--- a/python/cython/EPDL97.pxd
+++ b/python/cython/EPDL97.pxd
@@ -38,7 +38,7 @@ cdef extern from "fisx_epdl97.h" namespace "fisx":
         EPDL97(std_string) except +
         void setDataDirectory(std_string) except +        
         void setBindingEnergies(int, std_map[std_string, double])  except +
-        std_map[std_string, double] & getBindingEnergies(int)
+        std_map[std_string, double] & getBindingEnergies(int) except +
                                                 
         std_map[std_string, std_vector[double]] getMassAttenuationCoefficients(int) except +
         std_map[std_string, double] getMassAttenuationCoefficients(int, double) except +
diff --git a/python/cython/Layer.pxd b/python/cython/Layer.pxd
index f40c34c..2a4cc94 100644
--- a/python/cython/Layer.pxd
+++ b/python/cython/Layer.pxd
@@ -39,12 +39,12 @@ from Material cimport *
 
 cdef extern from "fisx_layer.h" namespace "fisx":
     cdef cppclass Layer:
-        Layer(std_string, double, double, double)
+        Layer(std_string, double, double, double) except +
 
-        std_map[std_string, double] getComposition(Elements)
+        std_map[std_string, double] getComposition(Elements) except +
 
-        std_vector[double] getTransmission(std_vector[double], Elements, double)
+        std_vector[double] getTransmission(std_vector[double], Elements, double) except +
 
-        void setMaterial(Material)
+        void setMaterial(Material) except +
 
         std_vector[std_pair[std_string, double]] getPeakFamilies(double, Elements) except +
-- 
2.43.0


From 5085c7637894847336f38834a7eed335d0cbd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:55 +0000
Subject: [PATCH 69/81] fix: None in place of a library object crashed the
 interpreter

---
 python/cython/PyDetector.pyx |  6 +++---
 python/cython/PyElements.pyx |  2 +-
 python/cython/PyLayer.pyx    |  8 ++++----
 python/cython/PyXRF.pyx      | 40 ++++++++++++++++++------------------
 4 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/python/cython/PyDetector.pyx b/python/cython/PyDetector.pyx
index dd1ed0b..ad0bde4 100644
--- a/python/cython/PyDetector.pyx
+++ b/python/cython/PyDetector.pyx
@@ -47,7 +47,7 @@ cdef class PyDetector:
     def __dealloc__(self):
         del self.thisptr
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         if not hasattr(energies, "__len__"):
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
@@ -73,7 +73,7 @@ cdef class PyDetector:
     def setMaximumNumberOfEscapePeaks(self, int n):
         self.thisptr.setMaximumNumberOfEscapePeaks(n)
 
-    def getEscape(self, double energy, PyElements elementsLib, label="", int update=1):
+    def getEscape(self, double energy, PyElements elementsLib not None, label="", int update=1):
         label_ = toBytes(label)
         if sys.version < "3.0":
             if update:
@@ -104,7 +104,7 @@ cdef class PyDetector:
     def getDensity(self):
         return self.thisptr.getDensity()
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         if sys.version < "3.0":
             return self.thisptr.getComposition(deref(elementsLib.thisptr))
         else:
diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 548974e..f2f58a5 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -156,7 +156,7 @@ cdef class PyElements:
     def __dealloc__(self):
         del self.thisptr
 
-    def addMaterial(self, PyMaterial material, int errorOnReplace=1):
+    def addMaterial(self, PyMaterial material not None, int errorOnReplace=1):
         self.thisptr.addMaterial(deref(material.thisptr), errorOnReplace)
 
     def setShellConstantsFile(self, mainShellName, fileName):
diff --git a/python/cython/PyLayer.pyx b/python/cython/PyLayer.pyx
index 5459820..2589304 100644
--- a/python/cython/PyLayer.pyx
+++ b/python/cython/PyLayer.pyx
@@ -49,7 +49,7 @@ cdef class PyLayer:
     def __dealloc__(self):
         del self.thisptr
 
-    def getComposition(self, PyElements elementsLib):
+    def getComposition(self, PyElements elementsLib not None):
         """
         getComposition(elementsLib)
 
@@ -58,7 +58,7 @@ cdef class PyLayer:
         """
         return toStringKeys(self.thisptr.getComposition(deref(elementsLib.thisptr)))
 
-    def getTransmission(self, energies, PyElements elementsLib, double angle=90.):
+    def getTransmission(self, energies, PyElements elementsLib not None, double angle=90.):
         """
         getTransmission(energies, ElementsLibraryInstance, angle=90.)
 
@@ -69,7 +69,7 @@ cdef class PyLayer:
             energies = numpy.array([energies], numpy.float64)
         return self.thisptr.getTransmission(energies, deref(elementsLib.thisptr), angle)
 
-    def setMaterial(self, PyMaterial material):
+    def setMaterial(self, PyMaterial material not None):
         """
         setMaterial(MaterialInstance)
 
@@ -77,7 +77,7 @@ cdef class PyLayer:
         """
         self.thisptr.setMaterial(deref(material.thisptr))
 
-    def getPeakFamilies(self, double energy, PyElements elementsLib):
+    def getPeakFamilies(self, double energy, PyElements elementsLib not None):
         """
         getPeakFamilies(energy, ElementsLibraryInstance)
 
diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ba9c190..05df443 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -211,7 +211,7 @@ cdef class PyXRF:
         """
         self._fillTransmissionTable(pyTransmissionTableList, "attenuator")
 
-    def setDetector(self, PyDetector detector):
+    def setDetector(self, PyDetector detector not None):
         self.thisptr.setDetector(deref(detector.thisptr))
 
     def setGeometry(self, double alphaIn, double alphaOut, double scatteringAngle = -90.0):
@@ -220,12 +220,12 @@ cdef class PyXRF:
         else:
             self.thisptr.setGeometry(alphaIn, alphaOut, scatteringAngle)
 
-    def getLayerComposition(self, PyLayer layerInstance, PyElements elementsLibrary):
+    def getLayerComposition(self, PyLayer layerInstance not None, PyElements elementsLibrary not None):
         return toStringKeys(self.thisptr.getLayerComposition(deref(layerInstance.thisptr),
                                                 deref(elementsLibrary.thisptr)))
 
-    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance, energies, \
-                                            PyElements elementsLibrary):
+    def getLayerMassAttenuationCoefficients(self, PyLayer layerInstance not None, energies, \
+                                            PyElements elementsLibrary not None):
         if not hasattr(energies, "__len__"):
             return toStringKeys(self._getLayerMassAttenuationCoefficientsSingle( \
                                     layerInstance, \
@@ -236,9 +236,9 @@ cdef class PyXRF:
                                     energies,
                                     elementsLibrary))
 
-    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsSingle(self, PyLayer layerInstance not None, \
                                             double energy, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -246,9 +246,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance, \
+    def _getLayerMassAttenuationCoefficientsMultiple(self, PyLayer layerInstance not None, \
                                             std_vector[double] energies, \
-                                            PyElements elementsLibrary):
+                                            PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerMassAttenuationCoefficients( \
@@ -256,8 +256,8 @@ cdef class PyXRF:
                                     energies, deref(elementsLibrary.thisptr), \
                                     composition)
 
-    def getLayerTransmission(self, PyLayer layerInstance, energies, \
-                             PyElements elementsLibrary, angle=90.):
+    def getLayerTransmission(self, PyLayer layerInstance not None, energies, \
+                             PyElements elementsLibrary not None, angle=90.):
         if not hasattr(energies, "__len__"):
             return self._getLayerTransmissionSingle( \
                                     layerInstance, \
@@ -271,8 +271,8 @@ cdef class PyXRF:
                                     elementsLibrary, \
                                     angle)
 
-    def _getLayerTransmissionSingle(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary, double angle):
+    def _getLayerTransmissionSingle(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -282,9 +282,9 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def _getLayerTransmissionMultiple(self, PyLayer layerInstance, \
+    def _getLayerTransmissionMultiple(self, PyLayer layerInstance not None, \
                              std_vector[double] energies, \
-                             PyElements elementsLibrary, double angle):
+                             PyElements elementsLibrary not None, double angle):
         cdef std_map[std_string, double] composition
         composition.clear()
         return self.thisptr.getLayerTransmission( \
@@ -294,8 +294,8 @@ cdef class PyXRF:
                                     angle, \
                                     composition)
 
-    def getLayerPeakFamilies(self, PyLayer layerInstance, double energy, \
-                             PyElements elementsLibrary):
+    def getLayerPeakFamilies(self, PyLayer layerInstance not None, double energy, \
+                             PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
         return toStringKeys(self.thisptr.getLayerPeakFamilies( \
@@ -303,9 +303,9 @@ cdef class PyXRF:
                                     energy, deref(elementsLibrary.thisptr), \
                                     composition))
 
-    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary, \
+    def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam=PyBeam()):
+                            double secondaryCalculationLimit = 0.0, PyBeam overwritingBeam not None=PyBeam()):
         """
         Input
         elementFamilyLayer - Vector of strings. Each string represents the information we are interested on.
@@ -352,11 +352,11 @@ cdef class PyXRF:
                             secondary, useGeometricEfficiency, \
                             useMassFractions, secondaryCalculationLimit, deref(overwritingBeam.thisptr))
 
-    def getFluorescence(self, elementNames, PyElements elementsLibrary, \
+    def getFluorescence(self, elementNames, PyElements elementsLibrary not None, \
                             sampleLayer = 0, lineFamily="K", int secondary = 0, \
                             int useGeometricEfficiency = 1, int useMassFractions = 0, \
                             double secondaryCalculationLimit = 0.0,
-                            PyBeam overwritingBeam=PyBeam()):
+                            PyBeam overwritingBeam not None=PyBeam()):
 
         """
         Input
-- 
2.43.0


From f1c79a41c1048b5b5395f05890afcc77743684f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 70/81] fix: weights of a beam given as array are refused by
 the Python binding

---
 python/cython/PyBeam.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cython/PyBeam.pyx b/python/cython/PyBeam.pyx
index 98ed91c..509c704 100644
--- a/python/cython/PyBeam.pyx
+++ b/python/cython/PyBeam.pyx
@@ -54,7 +54,7 @@ cdef class PyBeam:
             energies = numpy.array([energies], dtype=numpy.float64)
         else:
             energies = numpy.asarray(energies, dtype=numpy.float64)
-        if weights:
+        if weights is not None:
             if not hasattr(weights, "__len__"):
                 weights = numpy.array([weights], numpy.float64)
             else:
-- 
2.43.0


From c86e035deb2cc775608b1ace55ae0157ed9714a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 71/81] fix: str names refused and bytes names returned by the
 Python binding of elements, shells, EPDL97 and ini files

---
 python/cython/PyEPDL97.pyx    |  4 ++--
 python/cython/PyElement.pyx   | 40 ++++++++++++++++-------------------
 python/cython/PyShell.pyx     | 14 ++++++------
 python/cython/PySimpleIni.pyx |  5 +++--
 4 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/python/cython/PyEPDL97.pyx b/python/cython/PyEPDL97.pyx
index 3ef487b..2a2a5d0 100644
--- a/python/cython/PyEPDL97.pyx
+++ b/python/cython/PyEPDL97.pyx
@@ -50,8 +50,8 @@ cdef class PyEPDL97:
     def setDataDirectory(self, name):
         self.thisptr.setDataDirectory(toBytes(name))
 
-    def setBindingEnergies(self, int z, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(z, energies)
+    def setBindingEnergies(self, int z, energies):
+        self.thisptr.setBindingEnergies(z, toBytesKeys(energies))
 
     def getBindingEnergies(self, int z):
         return toStringKeys(self.thisptr.getBindingEnergies(z))
diff --git a/python/cython/PyElement.pyx b/python/cython/PyElement.pyx
index 5328eb9..a2896fa 100644
--- a/python/cython/PyElement.pyx
+++ b/python/cython/PyElement.pyx
@@ -51,11 +51,11 @@ cdef class PyElement:
     def getAtomicNumber(self):
         return self.thisptr.getAtomicNumber()
 
-    def setBindingEnergies(self, std_map[std_string, double] energies):
-        self.thisptr.setBindingEnergies(energies)
+    def setBindingEnergies(self, energies):
+        self.thisptr.setBindingEnergies(toBytesKeys(energies))
 
     def getBindingEnergies(self):
-        return self.thisptr.getBindingEnergies()
+        return toStringKeys(self.thisptr.getBindingEnergies())
     
     def setMassAttenuationCoefficients(self,
                                        std_vector[double] energies,
@@ -70,10 +70,10 @@ cdef class PyElement:
                                                     pair)
     
     def _getDefaultMassAttenuationCoefficients(self):
-        return self.thisptr.getMassAttenuationCoefficients()
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients())
 
     def _getSingleMassAttenuationCoefficients(self, double energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
 
     def getMassAttenuationCoefficients(self, energy=None):
         if energy is None:
@@ -84,36 +84,32 @@ cdef class PyElement:
             return self._getMultipleMassAttenuationCoefficients([energy])
 
     def _getMultipleMassAttenuationCoefficients(self, std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(energy)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(energy))
                                        
-    def setRadiativeTransitions(self, shell,
-                                std_vector[std_string] labels,
-                                std_vector[double] values):
+    def setRadiativeTransitions(self, shell, labels, std_vector[double] values):
+        labels = [toBytes(x) for x in labels]
         self.thisptr.setRadiativeTransitions(toBytes(shell), labels, values)
 
     def getRadiativeTransitions(self, shell):
-        return self.thisptr.getRadiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getRadiativeTransitions(toBytes(shell)))
 
-    def setNonradiativeTransitions(self, shell,
-                                   std_vector[std_string] labels,
-                                   std_vector[double] values):
+    def setNonradiativeTransitions(self, shell, labels, std_vector[double] values):
+        labels = [toBytes(x) for x in labels]
         self.thisptr.setNonradiativeTransitions(toBytes(shell), labels, values)
 
     def getNonradiativeTransitions(self, shell):
-        return self.thisptr.getNonradiativeTransitions(toBytes(shell))
+        return toStringKeys(self.thisptr.getNonradiativeTransitions(toBytes(shell)))
 
-    def setShellConstants(self, shell,
-                          std_map[std_string, double] valuesDict):
-        self.thisptr.setShellConstants(toBytes(shell), valuesDict)
+    def setShellConstants(self, shell, valuesDict):
+        self.thisptr.setShellConstants(toBytes(shell), toBytesKeys(valuesDict))
 
     def getShellConstants(self, shell):
-        return self.thisptr.getShellConstants(toBytes(shell))
+        return toStringKeys(self.thisptr.getShellConstants(toBytes(shell)))
 
     #def getXRayLines(self, std_string shell):
     #    return self.thisptr.getXRayLines(shell)
                           
-    def getXRayLinesFromVacancyDistribution(self,
-                            std_map[std_string, double] vacancyDict):
-        return self.thisptr.getXRayLinesFromVacancyDistribution(\
-                                vacancyDict)
+    def getXRayLinesFromVacancyDistribution(self, vacancyDict):
+        return toStringKeysAndValues(self.thisptr.getXRayLinesFromVacancyDistribution(\
+                                toBytesKeys(vacancyDict)))
 
diff --git a/python/cython/PyShell.pyx b/python/cython/PyShell.pyx
index b0eed12..1d06280 100644
--- a/python/cython/PyShell.pyx
+++ b/python/cython/PyShell.pyx
@@ -55,22 +55,22 @@ cdef class PyShell:
         self.thisptr.setNonradiativeTransitions(transitions, values)
 
     def getAugerRatios(self):
-        return self.thisptr.getAugerRatios()
+        return toStringKeysAndValues(self.thisptr.getAugerRatios())
 
     def getCosterKronigRatios(self):
-        return self.thisptr.getCosterKronigRatios()
+        return toStringKeysAndValues(self.thisptr.getCosterKronigRatios())
 
     def getFluorescenceRatios(self):
-        return self.thisptr.getFluorescenceRatios()
+        return toStringKeysAndValues(self.thisptr.getFluorescenceRatios())
 
     def getRadiativeTransitions(self):
-        return self.thisptr.getRadiativeTransitions()
+        return toStringKeysAndValues(self.thisptr.getRadiativeTransitions())
 
     def getNonradiativeTransitions(self):
-        return self.thisptr.getNonradiativeTransitions()
+        return toStringKeysAndValues(self.thisptr.getNonradiativeTransitions())
 
     def getDirectVacancyTransferRatios(self, subshell):
-        return self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell))
+        return toStringKeysAndValues(self.thisptr.getDirectVacancyTransferRatios(toBytes(subshell)))
 
     def setShellConstants(self, shellConstants):
         if sys.version > "3.0":
@@ -78,4 +78,4 @@ cdef class PyShell:
         self.thisptr.setShellConstants(shellConstants)
 
     def getShellConstants(self):
-        return self.thisptr.getShellConstants()
+        return toStringKeysAndValues(self.thisptr.getShellConstants())
diff --git a/python/cython/PySimpleIni.pyx b/python/cython/PySimpleIni.pyx
index 7d16335..bbc7155 100644
--- a/python/cython/PySimpleIni.pyx
+++ b/python/cython/PySimpleIni.pyx
@@ -46,8 +46,9 @@ cdef class PySimpleIni:
         del self.thisptr
 
     def getKeys(self):
-        return self.thisptr.getSections()
+        return toStringList(self.thisptr.getSections())
 
     def readKey(self, key):
         key = toBytes(key)
-        return self.thisptr.readSection(key)
+        cdef dict section = self.thisptr.readSection(key)
+        return dict((toString(x), toString(section[x])) for x in section)
-- 
2.43.0


From 9de9883ec00ea0f6c7555719f77dd039aadf2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 72/81] fix: str names refused and bytes names returned by the
 Python binding of the elements library

---
 python/cython/PyElements.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index f2f58a5..b1d83aa 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -141,7 +141,7 @@ cdef class PyElements:
     def getColumn(self, element):
         return self.thisptr.getColumn(toBytes(element))
 
-    def getRow(self, std_string element):
+    def getRow(self, element):
         return self.thisptr.getRow(toBytes(element))
 
     def getMaterialNames(self):
@@ -191,13 +191,13 @@ cdef class PyElements:
             return toString(self.thisptr.getShellNonradiativeTransitionsFile(toBytes(mainShellName)))
 
     def setMassAttenuationCoefficients(self,
-                                       std_string element,
+                                       element,
                                        std_vector[double] energies,
                                        std_vector[double] photo,
                                        std_vector[double] coherent,
                                        std_vector[double] compton,
                                        std_vector[double] pair):
-        self.thisptr.setMassAttenuationCoefficients(element,
+        self.thisptr.setMassAttenuationCoefficients(toBytes(element),
                                                     energies,
                                                     photo,
                                                     coherent,
@@ -250,7 +250,7 @@ cdef class PyElements:
         calculated values via log-log interpolation in the internal table.
         """
         if hasattr(name, "keys"):
-            return self._getMaterialMassAttenuationCoefficients(toBytes(name), energy)
+            return self._getMaterialMassAttenuationCoefficients(toBytesKeys(name), energy)
         elif energy is None:
             return self._getElementDefaultMassAttenuationCoefficients(toBytes(name))
         elif hasattr(energy, "__len__"):
@@ -296,7 +296,7 @@ cdef class PyElements:
 
     def _getMassAttenuationCoefficients(self, std_map[std_string, double] elementDict,
                                               std_vector[double] energy):
-        return self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0)
+        return toStringKeys(self.thisptr.getMassAttenuationCoefficients(elementDict, energy, 0))
 
     def _getExcitationFactors(self, std_string element,
                                    std_vector[double] energies,
-- 
2.43.0


From 986c40266a126bc30590e166aedc2990589dcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 73/81] fix: Python excitation factors at several energies
 returned only at the first one

---
 python/cython/PyElements.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index b1d83aa..62b3045 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -269,7 +269,7 @@ cdef class PyElements:
         if hasattr(energy, "__len__"):
             if weight is None:
                 weight = [1.0] * len(energy)
-            return self._getExcitationFactors(toBytes(name), energy, weight)[0]
+            return self._getExcitationFactors(toBytes(name), energy, weight)
         else:
             energy = [energy]
             if weight is None:
-- 
2.43.0


From 0dab8665dbf71f11b464072ef1b44c003f5a4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 74/81] fix: failed initializeAsPyMca left a deleted library
 behind

---
 python/cython/PyElements.pyx | 40 +++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/python/cython/PyElements.pyx b/python/cython/PyElements.pyx
index 62b3045..f17b27c 100644
--- a/python/cython/PyElements.pyx
+++ b/python/cython/PyElements.pyx
@@ -87,15 +87,10 @@ cdef class PyElements:
         directoryName = DataDir.FISX_DATA_DIR
         bindingEnergies = getDataFile("BindingEnergies.dat")
         xcomFile = getDataFile("XCOM_CrossSections.dat")
-        del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
-        for shell in ["K", "L", "M"]:
-            shellConstantsFile = getDataFile(shell+"ShellConstants.dat")
-            self.thisptr.setShellConstantsFile(toBytes(shell),
-                                               toBytes(shellConstantsFile))
-        for shell in ["K", "L", "M"]:
-            radiativeRatesFile = getDataFile(shell+"ShellRates.dat")
-            self.thisptr.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(radiativeRatesFile))
+        shellConstantsFiles = [getDataFile(x + "ShellConstants.dat") for x in ["K", "L", "M"]]
+        radiativeRatesFiles = [getDataFile(x + "ShellRates.dat") for x in ["K", "L", "M"]]
+        self._initializeFromFiles(directoryName, bindingEnergies, xcomFile,
+                                  shellConstantsFiles, radiativeRatesFiles)
 
     def __initializeAsPyMcaOld(self):
         """
@@ -113,15 +108,26 @@ cdef class PyElements:
             dataDir = directoryName
         bindingEnergies = os.path.join(dataDir, "BindingEnergies.dat")
         xcomFile = os.path.join(dataDir, "XCOM_CrossSections.dat")
+        shellConstantsFiles = [os.path.join(dataDir, x + "ShellConstants.dat") for x in ["K", "L", "M"]]
+        radiativeRatesFiles = [os.path.join(dataDir, x + "ShellRates.dat") for x in ["K", "L", "M"]]
+        self._initializeFromFiles(directoryName, bindingEnergies, xcomFile,
+                                  shellConstantsFiles, radiativeRatesFiles)
+
+    def _initializeFromFiles(self, directoryName, bindingEnergies, xcomFile,
+                             shellConstantsFiles, radiativeRatesFiles):
+        cdef Elements *newptr
+        newptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
+        try:
+            for shell, fileName in zip(["K", "L", "M"], shellConstantsFiles):
+                newptr.setShellConstantsFile(toBytes(shell), toBytes(fileName))
+            for shell, fileName in zip(["K", "L", "M"], radiativeRatesFiles):
+                newptr.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(fileName))
+        except:
+            # the instance is left as it was
+            del newptr
+            raise
         del self.thisptr
-        self.thisptr = new Elements(toBytes(directoryName), toBytes(bindingEnergies), toBytes(xcomFile))
-        for shell in ["K", "L", "M"]:
-            shellConstantsFile = os.path.join(dataDir, shell+"ShellConstants.dat")
-            self.thisptr.setShellConstantsFile(toBytes(shell), toBytes(shellConstantsFile))
-
-        for shell in ["K", "L", "M"]:
-            radiativeRatesFile = os.path.join(dataDir, shell+"ShellRates.dat")
-            self.thisptr.setShellRadiativeTransitionsFile(toBytes(shell), toBytes(radiativeRatesFile))
+        self.thisptr = newptr
 
     def getElementNames(self):
         return toStringList(self.thisptr.getElementNames())
-- 
2.43.0


From 51447a7dd0cee74270b918076d09174ee4adc36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 75/81] fix: instances of transmission tables refused by the
 Python binding

---
 python/cython/PyXRF.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 05df443..ef1901d 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -125,8 +125,8 @@ cdef class PyXRF:
         cdef TransmissionTable t
         if instantiated:
             for item in pyTransmissionTableList:
-                name = item.getName()
-                comment = item.getComment()
+                name = toBytes(item.getName())
+                comment = toBytes(item.getComment())
                 table = item.getTransmissionTable()
                 t = TransmissionTable()
                 t.setTransmissionTable(table, name, comment)
-- 
2.43.0


From 7fdd745dd61dbab4add6bdb8b4858b2fb79b5de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 76/81] fix: name of a configuration file given as str refused
 by the Python binding

---
 python/cython/PyXRF.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index ef1901d..5005230 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -42,7 +42,8 @@ from Beam cimport *
 cdef class PyXRF:
     cdef XRF *thisptr
 
-    def __cinit__(self, std_string configurationFile=""):
+    def __cinit__(self, configurationFile=""):
+        configurationFile = toBytes(configurationFile)
         if len(configurationFile):
             self.thisptr = new XRF(configurationFile)
         else:
-- 
2.43.0


From fa11add1ca99217c719499fbae8e8d4176766a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 77/81] fix: peak families of a layer never returned by the
 Python binding

---
 python/cython/PyXRF.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 5005230..654a734 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -299,10 +299,11 @@ cdef class PyXRF:
                              PyElements elementsLibrary not None):
         cdef std_map[std_string, double] composition
         composition.clear()
-        return toStringKeys(self.thisptr.getLayerPeakFamilies( \
+        families = self.thisptr.getLayerPeakFamilies( \
                                     deref(layerInstance.thisptr), \
                                     energy, deref(elementsLibrary.thisptr), \
-                                    composition))
+                                    composition)
+        return [(toString(x.first), x.second) for x in families]
 
     def getMultilayerFluorescence(self, elementFamilyLayer, PyElements elementsLibrary not None, \
                             int secondary = 0, int useGeometricEfficiency = 1, int useMassFractions = 0, \
-- 
2.43.0


From 80530f162564031da8b1c8ecbdcf6315851b6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 78/81] fix: single element or family given as text to the
 Python getFluorescence

---
 python/cython/PyXRF.pyx | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/python/cython/PyXRF.pyx b/python/cython/PyXRF.pyx
index 654a734..e0b24a6 100644
--- a/python/cython/PyXRF.pyx
+++ b/python/cython/PyXRF.pyx
@@ -402,10 +402,7 @@ cdef class PyXRF:
         cdef std_vector[int] dummyIntVec
         cdef std_vector[double] dummyDoubleVec
 
-        if hasattr(elementNames[0], "__len__"):
-            # we have received a list of elements
-            pass
-        else:
+        if hasattr(elementNames, "encode") or hasattr(elementNames, "decode"):
             # we have a single element, convert to list
             elementNames = [elementNames]
 
@@ -416,11 +413,8 @@ cdef class PyXRF:
             # we should have received an integer, convert to list
             sampleLayer = [sampleLayer]
 
-        if len(lineFamily) and hasattr(lineFamily, "__len__"):
-            # we have received a list of peak families
-            pass
-        else:
-            # we should have a peak family, convert to list
+        if hasattr(lineFamily, "encode") or hasattr(lineFamily, "decode"):
+            # we have a single peak family, convert to list
             lineFamily = [lineFamily]
 
         # check the sizes match
-- 
2.43.0


From fb5daddce5ab6c1c08493f4da94089355ad3fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:49 +0000
Subject: [PATCH 79/81] fix: binding energies of elements beyond the last one
 written out of bounds

---
 src/fisx_epdl97.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fisx_epdl97.cpp b/src/fisx_epdl97.cpp
index eae61ff..eee36f6 100644
--- a/src/fisx_epdl97.cpp
+++ b/src/fisx_epdl97.cpp
@@ -337,6 +337,10 @@ void EPDL97::setBindingEnergies(const int & z, const std::map<std::string, doubl
     {
         throw std::runtime_error("EPDL97 Atomic number should be positive");
     }
+    if (z > (int) this->bindingEnergy.size())
+    {
+        throw std::runtime_error("EPDL97 Atomic number beyond the last element");
+    }
 
     this->bindingEnergy[z - 1].clear();
     this->bindingEnergy[z - 1] = bindingEnergies;
-- 
2.43.0


From df904fc9e761f3520fda948b81dc5cc9e332f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:46 +0000
Subject: [PATCH 80/81] fix: accept attenuation tables that start below the
 EPDL97 ones

The edge points of a supplied table are moved up to the binding energy of
the library. The points following them were kept in ascending order only
if EPDL97 points preceded the table, otherwise the table was refused.
---
 src/fisx_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 9164a65..0c7c54e 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -921,7 +921,7 @@ void Elements::setMassAttenuationCoefficients(const std::string & name,
                 }
             }
         }
-        if (j > 0)
+        if (i > 0)
         {
             if (newEnergyGrid[i] < newEnergyGrid[i - 1])
             {
-- 
2.43.0


From cd73fbb1f2519a60b425e8f6d76ad87f8562715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:36 +0000
Subject: [PATCH 81/81] fix: do not take the energies for the photoelectric
 coefficients

In a file of mass attenuation coefficients the column labelled PhotonEnergy
matched the photoelectric one as well. It replaced the photoelectric
coefficients whenever it was not placed before them.
---
 src/fisx_elements.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fisx_elements.cpp b/src/fisx_elements.cpp
index 0c7c54e..d005b55 100644
--- a/src/fisx_elements.cpp
+++ b/src/fisx_elements.cpp
@@ -723,7 +723,8 @@ void Elements::setMassAttenuationCoefficientsFile(const std::string & fileName)
                         muEnergy[j] = data[j][i];
                     }
                 }
-                if (key.find("PHOTO") != std::string::npos)
+                // the label of the energies contains it too (PhotonEnergy)
+                if ((key.find("PHOTO") != std::string::npos) && (key.find("ENERGY") == std::string::npos))
                 {
                     muPhotoelectric.resize(data.size());
                     for (j = 0; j < data.size(); j++)
-- 
2.43.0

