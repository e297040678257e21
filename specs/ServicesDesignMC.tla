---- MODULE ServicesDesignMC ----
EXTENDS ServicesDesign
MyThreads == {<<"s1", 1>>, <<"s2", 1>>, <<"s3", 1>>, <<"s3", 2>>}
MyQ(s) == IF s = "s3" THEN "qb" ELSE "qa"
MyStart == {<<"s1", "F", 1>>, <<"s2", "F", 1>>, <<"s3", "F", 2>>, <<"s3", "G", 1>>}
FewThreads == {<<"s1", 1>>, <<"s2", 1>>, <<"s3", 1>>}
FewStart == {<<"s1", "F", 1>>, <<"s2", "F", 1>>, <<"s3", "F", 2>>}
Small == Cardinality(table) >= Cardinality(Start) - 1
====
