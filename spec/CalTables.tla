----------------------------- MODULE CalTables ------------------------------
(***************************************************************************)
(* Holidays that follow no arithmetic rule: lunar and religious feasts and *)
(* bridge days, as decreed, year by year: <<from year, to year, month,     *)
(* first day, last day>>.  The lunar new year, Buddha's birthday and the   *)
(* autumn feasts were checked against computed new moons (see DESIGN.md).  *)
(***************************************************************************)

ChinaTable == {
  <<2004, 2004, 1, 19, 23>>, <<2004, 2004, 1, 26, 28>>,
  <<2005, 2005, 1, 3, 3>>, <<2005, 2005, 2, 7, 11>>, <<2005, 2005, 2, 14, 15>>,
  <<2006, 2006, 1, 2, 3>>, <<2006, 2006, 1, 26, 27>>, <<2006, 2006, 1, 30, 31>>,
  <<2006, 2006, 2, 1, 3>>,
  <<2007, 2007, 1, 2, 3>>, <<2007, 2007, 2, 19, 23>>, <<2007, 2007, 12, 31, 31>>,
  <<2008, 2008, 2, 6, 8>>, <<2008, 2008, 2, 11, 12>>, <<2008, 2008, 5, 1, 2>>,
  <<2008, 2008, 9, 29, 30>>, <<2008, 2008, 10, 1, 3>>,
  <<2009, 2009, 1, 2, 2>>, <<2009, 2009, 1, 26, 30>>, <<2009, 2009, 4, 6, 6>>,
  <<2009, 2009, 5, 1, 1>>, <<2009, 2009, 5, 28, 29>>, <<2009, 2009, 10, 1, 2>>,
  <<2009, 2009, 10, 5, 8>>,
  <<2010, 2010, 2, 15, 19>>, <<2010, 2010, 4, 5, 5>>, <<2010, 2010, 5, 3, 3>>,
  <<2010, 2010, 6, 14, 16>>, <<2010, 2010, 9, 22, 24>>, <<2010, 2010, 10, 1, 1>>,
  <<2010, 2010, 10, 4, 7>>,
  <<2011, 2011, 1, 3, 3>>, <<2011, 2011, 2, 2, 4>>, <<2011, 2011, 2, 7, 8>>,
  <<2011, 2011, 4, 4, 5>>, <<2011, 2011, 5, 2, 2>>, <<2011, 2011, 6, 6, 6>>,
  <<2011, 2011, 9, 12, 12>>, <<2011, 2011, 10, 3, 7>>,
  <<2012, 2012, 1, 2, 3>>, <<2012, 2012, 1, 23, 27>>, <<2012, 2012, 4, 2, 4>>,
  <<2012, 2012, 4, 30, 30>>, <<2012, 2012, 5, 1, 1>>, <<2012, 2012, 6, 22, 22>>,
  <<2012, 2012, 10, 1, 5>>,
  <<2013, 2013, 1, 2, 3>>, <<2013, 2013, 2, 11, 15>>, <<2013, 2013, 4, 4, 5>>,
  <<2013, 2013, 4, 29, 30>>, <<2013, 2013, 5, 1, 1>>, <<2013, 2013, 6, 10, 12>>,
  <<2013, 2013, 9, 19, 20>>, <<2013, 2013, 10, 1, 4>>, <<2013, 2013, 10, 7, 7>>,
  <<2014, 2014, 1, 31, 31>>, <<2014, 2014, 2, 3, 6>>, <<2014, 2014, 4, 7, 7>>,
  <<2014, 2014, 5, 1, 2>>, <<2014, 2014, 6, 2, 2>>, <<2014, 2014, 9, 8, 8>>,
  <<2014, 2014, 10, 1, 3>>, <<2014, 2014, 10, 6, 7>>,
  <<2015, 2015, 1, 2, 2>>, <<2015, 2015, 2, 18, 20>>, <<2015, 2015, 2, 23, 24>>,
  <<2015, 2015, 4, 6, 6>>, <<2015, 2015, 5, 1, 1>>, <<2015, 2015, 6, 22, 22>>,
  <<2015, 2015, 9, 3, 4>>, <<2015, 2015, 10, 1, 2>>, <<2015, 2015, 10, 5, 7>>,
  <<2016, 2016, 2, 8, 12>>, <<2016, 2016, 4, 4, 4>>, <<2016, 2016, 5, 2, 2>>,
  <<2016, 2016, 6, 9, 10>>, <<2016, 2016, 9, 15, 16>>, <<2016, 2016, 10, 3, 7>>,
  <<2017, 2017, 1, 2, 2>>, <<2017, 2017, 1, 27, 27>>, <<2017, 2017, 1, 30, 31>>,
  <<2017, 2017, 2, 1, 2>>, <<2017, 2017, 4, 3, 4>>, <<2017, 2017, 5, 1, 1>>,
  <<2017, 2017, 5, 29, 30>>, <<2017, 2017, 10, 2, 6>>,
  <<2018, 2018, 2, 15, 16>>, <<2018, 2018, 2, 19, 21>>, <<2018, 2018, 4, 5, 6>>,
  <<2018, 2018, 4, 30, 30>>, <<2018, 2018, 5, 1, 1>>, <<2018, 2018, 6, 18, 18>>,
  <<2018, 2018, 9, 24, 24>>, <<2018, 2018, 10, 1, 5>>, <<2018, 2018, 12, 31, 31>>,
  <<2019, 2019, 2, 4, 8>>, <<2019, 2019, 4, 5, 5>>, <<2019, 2019, 5, 1, 3>>,
  <<2019, 2019, 6, 7, 7>>, <<2019, 2019, 9, 13, 13>>, <<2019, 2019, 10, 1, 4>>,
  <<2019, 2019, 10, 7, 7>>,
  <<2020, 2020, 1, 24, 24>>, <<2020, 2020, 1, 27, 31>>, <<2020, 2020, 4, 6, 6>>,
  <<2020, 2020, 5, 1, 1>>, <<2020, 2020, 5, 4, 5>>, <<2020, 2020, 6, 25, 26>>,
  <<2020, 2020, 10, 1, 2>>, <<2020, 2020, 10, 5, 8>>,
  <<2021, 2021, 2, 11, 12>>, <<2021, 2021, 2, 15, 17>>, <<2021, 2021, 4, 5, 5>>,
  <<2021, 2021, 5, 3, 5>>, <<2021, 2021, 6, 14, 14>>, <<2021, 2021, 9, 20, 21>>,
  <<2021, 2021, 10, 1, 1>>, <<2021, 2021, 10, 4, 7>>,
  <<2022, 2022, 1, 3, 3>>, <<2022, 2022, 1, 31, 31>>, <<2022, 2022, 2, 1, 4>>,
  <<2022, 2022, 4, 4, 5>>, <<2022, 2022, 5, 2, 4>>, <<2022, 2022, 6, 3, 3>>,
  <<2022, 2022, 9, 12, 12>>, <<2022, 2022, 10, 3, 7>>,
  <<2023, 2023, 1, 2, 2>>, <<2023, 2023, 1, 23, 27>>, <<2023, 2023, 4, 5, 5>>,
  <<2023, 2023, 5, 1, 3>>, <<2023, 2023, 6, 22, 23>>, <<2023, 2023, 9, 29, 29>>,
  <<2023, 2023, 10, 2, 6>>,
  <<2024, 2024, 2, 9, 9>>, <<2024, 2024, 2, 12, 16>>, <<2024, 2024, 4, 4, 5>>,
  <<2024, 2024, 5, 1, 3>>, <<2024, 2024, 6, 10, 10>>, <<2024, 2024, 9, 16, 17>>,
  <<2024, 2024, 10, 1, 4>>, <<2024, 2024, 10, 7, 7>>,
  <<2025, 2025, 1, 28, 31>>, <<2025, 2025, 2, 3, 4>>, <<2025, 2025, 4, 4, 4>>,
  <<2025, 2025, 5, 1, 2>>, <<2025, 2025, 5, 5, 5>>, <<2025, 2025, 6, 2, 2>>,
  <<2025, 2025, 10, 1, 3>>, <<2025, 2025, 10, 6, 8>>,
  <<2026, 2026, 1, 2, 2>>, <<2026, 2026, 2, 16, 20>>, <<2026, 2026, 2, 23, 23>>,
  <<2026, 2026, 4, 6, 6>>, <<2026, 2026, 5, 1, 1>>, <<2026, 2026, 5, 4, 5>>,
  <<2026, 2026, 6, 19, 19>>, <<2026, 2026, 9, 25, 25>>, <<2026, 2026, 10, 1, 2>>,
  <<2026, 2026, 10, 5, 7>>}

HongKongTable == {
  <<2004, 2004, 1, 22, 23>>, <<2004, 2004, 4, 5, 5>>, <<2004, 2004, 5, 26, 26>>,
  <<2004, 2004, 6, 22, 22>>, <<2004, 2004, 9, 29, 29>>, <<2004, 2004, 10, 22, 22>>,
  <<2005, 2005, 2, 9, 11>>, <<2005, 2005, 4, 5, 5>>, <<2005, 2005, 5, 16, 16>>,
  <<2005, 2005, 9, 19, 19>>, <<2005, 2005, 10, 11, 11>>,
  <<2006, 2006, 1, 30, 31>>, <<2006, 2006, 4, 5, 5>>, <<2006, 2006, 5, 5, 5>>,
  <<2006, 2006, 5, 31, 31>>, <<2006, 2006, 10, 30, 30>>,
  <<2007, 2007, 2, 19, 20>>, <<2007, 2007, 4, 5, 5>>, <<2007, 2007, 5, 24, 24>>,
  <<2007, 2007, 6, 19, 19>>, <<2007, 2007, 9, 26, 26>>, <<2007, 2007, 10, 19, 19>>,
  <<2008, 2008, 2, 7, 8>>, <<2008, 2008, 4, 4, 4>>, <<2008, 2008, 5, 12, 12>>,
  <<2008, 2008, 6, 9, 9>>, <<2008, 2008, 9, 15, 15>>, <<2008, 2008, 10, 7, 7>>,
  <<2009, 2009, 1, 26, 28>>, <<2009, 2009, 5, 28, 28>>, <<2009, 2009, 10, 26, 26>>,
  <<2010, 2010, 2, 15, 16>>, <<2010, 2010, 4, 6, 6>>, <<2010, 2010, 5, 21, 21>>,
  <<2010, 2010, 6, 16, 16>>, <<2010, 2010, 9, 23, 23>>,
  <<2011, 2011, 2, 3, 4>>, <<2011, 2011, 4, 5, 5>>, <<2011, 2011, 5, 10, 10>>,
  <<2011, 2011, 6, 6, 6>>, <<2011, 2011, 9, 13, 13>>, <<2011, 2011, 10, 5, 5>>,
  <<2011, 2011, 12, 27, 27>>,
  <<2012, 2012, 1, 23, 25>>, <<2012, 2012, 4, 4, 4>>, <<2012, 2012, 5, 10, 10>>,
  <<2012, 2012, 10, 23, 23>>,
  <<2013, 2013, 2, 11, 13>>, <<2013, 2013, 4, 4, 4>>, <<2013, 2013, 5, 17, 17>>,
  <<2013, 2013, 6, 12, 12>>, <<2013, 2013, 9, 20, 20>>, <<2013, 2013, 10, 14, 14>>,
  <<2014, 2014, 1, 31, 31>>, <<2014, 2014, 5, 6, 6>>, <<2014, 2014, 6, 2, 2>>,
  <<2014, 2014, 9, 9, 9>>, <<2014, 2014, 10, 2, 2>>,
  <<2015, 2015, 2, 19, 20>>, <<2015, 2015, 4, 7, 7>>, <<2015, 2015, 5, 25, 25>>,
  <<2015, 2015, 9, 3, 3>>, <<2015, 2015, 9, 28, 28>>, <<2015, 2015, 10, 21, 21>>,
  <<2016, 2016, 2, 8, 10>>, <<2016, 2016, 4, 4, 4>>, <<2016, 2016, 6, 9, 9>>,
  <<2016, 2016, 9, 16, 16>>, <<2016, 2016, 10, 10, 10>>, <<2016, 2016, 12, 27, 27>>,
  <<2017, 2017, 1, 30, 31>>, <<2017, 2017, 4, 4, 4>>, <<2017, 2017, 5, 3, 3>>,
  <<2017, 2017, 5, 30, 30>>, <<2017, 2017, 10, 5, 5>>,
  <<2018, 2018, 2, 16, 16>>, <<2018, 2018, 2, 19, 19>>, <<2018, 2018, 4, 5, 5>>,
  <<2018, 2018, 5, 22, 22>>, <<2018, 2018, 6, 18, 18>>, <<2018, 2018, 9, 25, 25>>,
  <<2018, 2018, 10, 17, 17>>,
  <<2019, 2019, 2, 5, 7>>, <<2019, 2019, 4, 5, 5>>, <<2019, 2019, 6, 7, 7>>,
  <<2019, 2019, 10, 7, 7>>,
  <<2020, 2020, 1, 27, 28>>, <<2020, 2020, 4, 30, 30>>, <<2020, 2020, 6, 25, 25>>,
  <<2020, 2020, 10, 2, 2>>, <<2020, 2020, 10, 26, 26>>,
  <<2021, 2021, 2, 12, 12>>, <<2021, 2021, 2, 15, 15>>, <<2021, 2021, 5, 19, 19>>,
  <<2021, 2021, 6, 14, 14>>, <<2021, 2021, 9, 22, 22>>, <<2021, 2021, 10, 14, 14>>,
  <<2022, 2022, 2, 1, 3>>, <<2022, 2022, 4, 5, 5>>, <<2022, 2022, 5, 9, 9>>,
  <<2022, 2022, 6, 3, 3>>, <<2022, 2022, 9, 12, 12>>, <<2022, 2022, 10, 4, 4>>,
  <<2023, 2023, 1, 23, 25>>, <<2023, 2023, 4, 5, 5>>, <<2023, 2023, 5, 26, 26>>,
  <<2023, 2023, 6, 22, 22>>, <<2023, 2023, 10, 23, 23>>,
  <<2024, 2024, 2, 12, 13>>, <<2024, 2024, 4, 4, 4>>, <<2024, 2024, 5, 15, 15>>,
  <<2024, 2024, 6, 10, 10>>, <<2024, 2024, 9, 18, 18>>, <<2024, 2024, 10, 11, 11>>,
  <<2025, 2025, 1, 29, 31>>, <<2025, 2025, 4, 4, 4>>, <<2025, 2025, 5, 5, 5>>,
  <<2025, 2025, 10, 7, 7>>, <<2025, 2025, 10, 29, 29>>}

IndiaTable == {
  <<2005, 2005, 1, 21, 21>>, <<2005, 2005, 9, 7, 7>>, <<2005, 2005, 10, 12, 12>>,
  <<2005, 2005, 11, 1, 1>>, <<2005, 2005, 11, 3, 3>>, <<2005, 2005, 11, 15, 15>>,
  <<2006, 2006, 1, 11, 11>>, <<2006, 2006, 2, 9, 9>>, <<2006, 2006, 3, 15, 15>>,
  <<2006, 2006, 4, 6, 6>>, <<2006, 2006, 4, 11, 11>>, <<2006, 2006, 10, 24, 25>>,
  <<2007, 2007, 1, 1, 1>>, <<2007, 2007, 1, 30, 30>>, <<2007, 2007, 2, 16, 16>>,
  <<2007, 2007, 3, 27, 27>>, <<2007, 2007, 5, 2, 2>>, <<2007, 2007, 11, 9, 9>>,
  <<2007, 2007, 12, 21, 21>>,
  <<2008, 2008, 3, 6, 6>>, <<2008, 2008, 3, 20, 20>>, <<2008, 2008, 4, 18, 18>>,
  <<2008, 2008, 5, 19, 19>>, <<2008, 2008, 9, 3, 3>>, <<2008, 2008, 10, 9, 9>>,
  <<2008, 2008, 10, 28, 28>>, <<2008, 2008, 10, 30, 30>>, <<2008, 2008, 11, 13, 13>>,
  <<2008, 2008, 12, 9, 9>>,
  <<2009, 2009, 1, 8, 8>>, <<2009, 2009, 2, 23, 23>>, <<2009, 2009, 3, 10, 11>>,
  <<2009, 2009, 4, 3, 3>>, <<2009, 2009, 4, 7, 7>>, <<2009, 2009, 9, 21, 21>>,
  <<2009, 2009, 9, 28, 28>>, <<2009, 2009, 10, 19, 19>>, <<2009, 2009, 11, 2, 2>>,
  <<2009, 2009, 12, 28, 28>>,
  <<2010, 2010, 1, 1, 1>>, <<2010, 2010, 2, 12, 12>>, <<2010, 2010, 3, 1, 1>>,
  <<2010, 2010, 3, 24, 24>>, <<2010, 2010, 9, 10, 10>>, <<2010, 2010, 11, 5, 5>>,
  <<2010, 2010, 11, 17, 17>>, <<2010, 2010, 12, 17, 17>>,
  <<2011, 2011, 3, 2, 2>>, <<2011, 2011, 4, 12, 12>>, <<2011, 2011, 8, 31, 31>>,
  <<2011, 2011, 9, 1, 1>>, <<2011, 2011, 10, 6, 6>>, <<2011, 2011, 10, 26, 27>>,
  <<2011, 2011, 11, 7, 7>>, <<2011, 2011, 11, 10, 10>>, <<2011, 2011, 12, 6, 6>>,
  <<2012, 2012, 2, 20, 20>>, <<2012, 2012, 3, 8, 8>>, <<2012, 2012, 4, 5, 5>>,
  <<2012, 2012, 8, 20, 20>>, <<2012, 2012, 9, 19, 19>>, <<2012, 2012, 10, 24, 24>>,
  <<2012, 2012, 11, 14, 14>>, <<2012, 2012, 11, 28, 28>>,
  <<2013, 2013, 3, 27, 27>>, <<2013, 2013, 4, 19, 19>>, <<2013, 2013, 4, 24, 24>>,
  <<2013, 2013, 8, 9, 9>>, <<2013, 2013, 9, 9, 9>>, <<2013, 2013, 10, 16, 16>>,
  <<2013, 2013, 11, 4, 4>>, <<2013, 2013, 11, 14, 14>>,
  <<2014, 2014, 2, 27, 27>>, <<2014, 2014, 3, 17, 17>>, <<2014, 2014, 4, 8, 8>>,
  <<2014, 2014, 7, 29, 29>>, <<2014, 2014, 8, 29, 29>>, <<2014, 2014, 10, 3, 3>>,
  <<2014, 2014, 10, 6, 6>>, <<2014, 2014, 10, 24, 24>>, <<2014, 2014, 11, 4, 4>>,
  <<2014, 2014, 11, 6, 6>>,
  <<2019, 2019, 2, 19, 19>>, <<2019, 2019, 3, 4, 4>>, <<2019, 2019, 3, 21, 21>>,
  <<2019, 2019, 4, 1, 1>>, <<2019, 2019, 4, 17, 17>>, <<2019, 2019, 4, 29, 29>>,
  <<2019, 2019, 6, 5, 5>>, <<2019, 2019, 8, 12, 12>>, <<2019, 2019, 9, 2, 2>>,
  <<2019, 2019, 9, 10, 10>>, <<2019, 2019, 10, 8, 8>>, <<2019, 2019, 10, 21, 21>>,
  <<2019, 2019, 10, 28, 28>>, <<2019, 2019, 11, 12, 12>>,
  <<2020, 2020, 2, 19, 19>>, <<2020, 2020, 2, 21, 21>>, <<2020, 2020, 3, 10, 10>>,
  <<2020, 2020, 3, 25, 25>>, <<2020, 2020, 4, 1, 2>>, <<2020, 2020, 4, 6, 6>>,
  <<2020, 2020, 5, 7, 7>>, <<2020, 2020, 5, 25, 25>>, <<2020, 2020, 10, 30, 30>>,
  <<2020, 2020, 11, 16, 16>>, <<2020, 2020, 11, 30, 30>>,
  <<2021, 2021, 2, 19, 19>>, <<2021, 2021, 3, 11, 11>>, <<2021, 2021, 3, 29, 29>>,
  <<2021, 2021, 4, 13, 13>>, <<2021, 2021, 4, 21, 21>>, <<2021, 2021, 5, 26, 26>>,
  <<2021, 2021, 7, 21, 21>>, <<2021, 2021, 9, 10, 10>>, <<2021, 2021, 10, 15, 15>>,
  <<2021, 2021, 10, 19, 19>>, <<2021, 2021, 11, 5, 5>>, <<2021, 2021, 11, 19, 19>>,
  <<2022, 2022, 3, 1, 1>>, <<2022, 2022, 3, 18, 18>>, <<2022, 2022, 5, 3, 3>>,
  <<2022, 2022, 5, 16, 16>>, <<2022, 2022, 8, 31, 31>>, <<2022, 2022, 10, 5, 5>>,
  <<2022, 2022, 10, 26, 26>>, <<2022, 2022, 11, 8, 8>>,
  <<2023, 2023, 3, 7, 7>>, <<2023, 2023, 3, 22, 22>>, <<2023, 2023, 3, 30, 30>>,
  <<2023, 2023, 4, 4, 4>>, <<2023, 2023, 5, 5, 5>>, <<2023, 2023, 6, 29, 29>>,
  <<2023, 2023, 8, 16, 16>>, <<2023, 2023, 9, 19, 19>>, <<2023, 2023, 9, 29, 29>>,
  <<2023, 2023, 10, 24, 24>>, <<2023, 2023, 11, 14, 14>>, <<2023, 2023, 11, 27, 27>>,
  <<2024, 2024, 1, 22, 22>>, <<2024, 2024, 2, 19, 19>>, <<2024, 2024, 3, 8, 8>>,
  <<2024, 2024, 3, 25, 25>>, <<2024, 2024, 4, 1, 1>>, <<2024, 2024, 4, 9, 9>>,
  <<2024, 2024, 4, 11, 11>>, <<2024, 2024, 4, 17, 17>>, <<2024, 2024, 5, 20, 20>>,
  <<2024, 2024, 5, 23, 23>>, <<2024, 2024, 6, 17, 17>>, <<2024, 2024, 7, 17, 17>>,
  <<2024, 2024, 9, 16, 16>>, <<2024, 2024, 11, 1, 1>>, <<2024, 2024, 11, 15, 15>>,
  <<2025, 2025, 2, 19, 19>>, <<2025, 2025, 2, 26, 26>>, <<2025, 2025, 3, 14, 14>>,
  <<2025, 2025, 3, 31, 31>>, <<2025, 2025, 4, 10, 10>>, <<2025, 2025, 5, 12, 12>>,
  <<2025, 2025, 9, 5, 5>>, <<2025, 2025, 10, 22, 22>>, <<2025, 2025, 11, 5, 5>>}

IndonesiaTable == {
  <<2005, 2005, 1, 21, 21>>, <<2005, 2005, 2, 9, 10>>, <<2005, 2005, 3, 11, 11>>,
  <<2005, 2005, 4, 22, 22>>, <<2005, 2005, 5, 24, 24>>, <<2005, 2005, 9, 2, 2>>,
  <<2005, 2005, 11, 2, 4>>, <<2005, 2005, 11, 7, 8>>, <<2005, 2005, 12, 26, 26>>,
  <<2006, 2006, 1, 10, 10>>, <<2006, 2006, 1, 31, 31>>, <<2006, 2006, 3, 30, 30>>,
  <<2006, 2006, 4, 10, 10>>, <<2006, 2006, 8, 21, 21>>, <<2006, 2006, 10, 23, 27>>,
  <<2007, 2007, 3, 19, 19>>, <<2007, 2007, 5, 18, 18>>, <<2007, 2007, 6, 1, 1>>,
  <<2007, 2007, 10, 12, 12>>, <<2007, 2007, 10, 15, 16>>, <<2007, 2007, 10, 24, 24>>,
  <<2007, 2007, 12, 20, 20>>,
  <<2008, 2008, 1, 10, 11>>, <<2008, 2008, 2, 7, 8>>, <<2008, 2008, 3, 7, 7>>,
  <<2008, 2008, 3, 20, 20>>, <<2008, 2008, 5, 20, 20>>, <<2008, 2008, 7, 30, 30>>,
  <<2008, 2008, 8, 18, 18>>, <<2008, 2008, 9, 30, 30>>, <<2008, 2008, 10, 1, 3>>,
  <<2008, 2008, 12, 8, 8>>, <<2008, 2008, 12, 29, 29>>, <<2008, 2008, 12, 31, 31>>,
  <<2009, 2009, 1, 2, 2>>, <<2009, 2009, 1, 26, 26>>, <<2009, 2009, 3, 9, 9>>,
  <<2009, 2009, 3, 26, 26>>, <<2009, 2009, 4, 9, 9>>, <<2009, 2009, 7, 20, 20>>,
  <<2009, 2009, 9, 18, 18>>, <<2009, 2009, 9, 21, 23>>, <<2009, 2009, 11, 27, 27>>,
  <<2009, 2009, 12, 18, 18>>, <<2009, 2009, 12, 24, 24>>, <<2009, 2009, 12, 31, 31>>,
  <<2010, 2010, 2, 26, 26>>, <<2010, 2010, 3, 16, 16>>, <<2010, 2010, 5, 28, 28>>,
  <<2010, 2010, 9, 8, 10>>, <<2010, 2010, 9, 13, 14>>, <<2010, 2010, 11, 17, 17>>,
  <<2010, 2010, 12, 7, 7>>, <<2010, 2010, 12, 24, 24>>, <<2010, 2010, 12, 31, 31>>,
  <<2011, 2011, 2, 3, 3>>, <<2011, 2011, 2, 15, 15>>, <<2011, 2011, 5, 17, 17>>,
  <<2011, 2011, 6, 29, 29>>, <<2011, 2011, 8, 29, 31>>, <<2011, 2011, 9, 1, 2>>,
  <<2011, 2011, 12, 26, 26>>,
  <<2012, 2012, 1, 23, 23>>, <<2012, 2012, 3, 23, 23>>, <<2012, 2012, 8, 20, 22>>,
  <<2012, 2012, 10, 26, 26>>, <<2012, 2012, 11, 15, 16>>, <<2012, 2012, 12, 24, 24>>,
  <<2012, 2012, 12, 31, 31>>,
  <<2013, 2013, 1, 24, 24>>, <<2013, 2013, 3, 12, 12>>, <<2013, 2013, 6, 6, 6>>,
  <<2013, 2013, 8, 5, 9>>, <<2013, 2013, 10, 14, 15>>, <<2013, 2013, 11, 5, 5>>,
  <<2013, 2013, 12, 26, 26>>, <<2013, 2013, 12, 31, 31>>,
  <<2014, 2014, 1, 14, 14>>, <<2014, 2014, 1, 31, 31>>, <<2014, 2014, 3, 31, 31>>,
  <<2014, 2014, 5, 1, 1>>, <<2014, 2014, 5, 15, 15>>, <<2014, 2014, 5, 27, 27>>,
  <<2014, 2014, 7, 28, 31>>, <<2014, 2014, 8, 1, 1>>, <<2014, 2014, 12, 26, 26>>,
  <<2014, 2014, 12, 31, 31>>}

SingaporeTable == {
  <<2004, 2004, 1, 22, 23>>, <<2004, 2004, 2, 2, 2>>, <<2004, 2004, 6, 2, 2>>,
  <<2004, 2004, 11, 11, 11>>, <<2004, 2004, 11, 15, 15>>,
  <<2005, 2005, 1, 21, 21>>, <<2005, 2005, 2, 9, 10>>, <<2005, 2005, 11, 1, 1>>,
  <<2005, 2005, 11, 3, 3>>,
  <<2006, 2006, 1, 10, 10>>, <<2006, 2006, 1, 30, 31>>, <<2006, 2006, 5, 12, 12>>,
  <<2006, 2006, 10, 24, 24>>,
  <<2007, 2007, 1, 2, 2>>, <<2007, 2007, 2, 19, 20>>, <<2007, 2007, 5, 31, 31>>,
  <<2007, 2007, 11, 8, 8>>, <<2007, 2007, 12, 20, 20>>,
  <<2008, 2008, 2, 7, 8>>, <<2008, 2008, 10, 1, 1>>, <<2008, 2008, 10, 28, 28>>,
  <<2008, 2008, 12, 8, 8>>,
  <<2009, 2009, 1, 26, 27>>, <<2009, 2009, 9, 21, 21>>, <<2009, 2009, 11, 16, 16>>,
  <<2009, 2009, 11, 27, 27>>,
  <<2010, 2010, 2, 15, 16>>, <<2010, 2010, 5, 28, 28>>, <<2010, 2010, 9, 10, 10>>,
  <<2010, 2010, 11, 5, 5>>, <<2010, 2010, 11, 17, 17>>,
  <<2012, 2012, 1, 23, 24>>, <<2012, 2012, 8, 20, 20>>, <<2012, 2012, 10, 26, 26>>,
  <<2012, 2012, 11, 13, 13>>,
  <<2013, 2013, 2, 11, 12>>, <<2013, 2013, 5, 24, 24>>, <<2013, 2013, 8, 8, 8>>,
  <<2013, 2013, 10, 15, 15>>,
  <<2014, 2014, 1, 31, 31>>, <<2014, 2014, 5, 13, 13>>, <<2014, 2014, 7, 28, 28>>,
  <<2014, 2014, 10, 6, 6>>, <<2014, 2014, 10, 23, 23>>,
  <<2019, 2019, 2, 5, 6>>, <<2019, 2019, 5, 20, 20>>, <<2019, 2019, 6, 5, 5>>,
  <<2019, 2019, 8, 12, 12>>, <<2019, 2019, 10, 28, 28>>,
  <<2020, 2020, 1, 27, 27>>, <<2020, 2020, 5, 7, 7>>, <<2020, 2020, 5, 25, 25>>,
  <<2020, 2020, 7, 31, 31>>,
  <<2021, 2021, 2, 12, 12>>, <<2021, 2021, 5, 13, 13>>, <<2021, 2021, 5, 26, 26>>,
  <<2021, 2021, 7, 20, 20>>, <<2021, 2021, 11, 4, 4>>,
  <<2022, 2022, 2, 1, 2>>, <<2022, 2022, 5, 2, 3>>, <<2022, 2022, 5, 16, 16>>,
  <<2022, 2022, 7, 11, 11>>, <<2022, 2022, 10, 24, 24>>, <<2022, 2022, 12, 26, 26>>,
  <<2023, 2023, 1, 23, 24>>, <<2023, 2023, 6, 2, 2>>, <<2023, 2023, 6, 29, 29>>,
  <<2023, 2023, 9, 1, 1>>, <<2023, 2023, 11, 13, 13>>,
  <<2024, 2024, 2, 12, 12>>, <<2024, 2024, 4, 10, 10>>, <<2024, 2024, 5, 22, 22>>,
  <<2024, 2024, 6, 17, 17>>, <<2024, 2024, 10, 31, 31>>,
  <<2025, 2025, 1, 29, 30>>, <<2025, 2025, 3, 31, 31>>, <<2025, 2025, 5, 12, 12>>,
  <<2025, 2025, 10, 20, 20>>,
  <<2026, 2026, 2, 17, 18>>, <<2026, 2026, 3, 20, 20>>, <<2026, 2026, 5, 27, 27>>,
  <<2026, 2026, 6, 1, 1>>, <<2026, 2026, 11, 9, 9>>}

SouthKoreaTable == {
  <<2004, 2004, 1, 21, 23>>, <<2004, 2004, 4, 15, 15>>, <<2004, 2004, 5, 26, 26>>,
  <<2004, 2004, 9, 27, 29>>,
  <<2005, 2005, 2, 8, 10>>, <<2005, 2005, 9, 19, 19>>,
  <<2006, 2006, 1, 30, 30>>, <<2006, 2006, 5, 31, 31>>, <<2006, 2006, 10, 5, 6>>,
  <<2007, 2007, 2, 19, 19>>, <<2007, 2007, 5, 24, 24>>, <<2007, 2007, 9, 24, 26>>,
  <<2007, 2007, 12, 19, 19>>,
  <<2008, 2008, 2, 6, 8>>, <<2008, 2008, 4, 9, 9>>, <<2008, 2008, 5, 12, 12>>,
  <<2008, 2008, 9, 15, 15>>,
  <<2009, 2009, 1, 26, 27>>, <<2009, 2009, 10, 2, 2>>,
  <<2010, 2010, 2, 15, 15>>, <<2010, 2010, 5, 21, 21>>, <<2010, 2010, 6, 2, 2>>,
  <<2010, 2010, 9, 21, 23>>,
  <<2011, 2011, 2, 2, 4>>, <<2011, 2011, 5, 10, 10>>, <<2011, 2011, 9, 12, 13>>,
  <<2012, 2012, 1, 23, 24>>, <<2012, 2012, 4, 11, 11>>, <<2012, 2012, 5, 28, 28>>,
  <<2012, 2012, 10, 1, 1>>, <<2012, 2012, 12, 19, 19>>,
  <<2013, 2013, 2, 11, 11>>, <<2013, 2013, 5, 17, 17>>, <<2013, 2013, 9, 18, 20>>,
  <<2014, 2014, 1, 30, 31>>, <<2014, 2014, 5, 6, 6>>, <<2014, 2014, 6, 4, 4>>,
  <<2014, 2014, 9, 8, 10>>,
  <<2015, 2015, 2, 18, 20>>, <<2015, 2015, 5, 25, 25>>, <<2015, 2015, 8, 14, 14>>,
  <<2015, 2015, 9, 28, 29>>,
  <<2016, 2016, 2, 8, 10>>, <<2016, 2016, 4, 13, 13>>, <<2016, 2016, 9, 14, 16>>,
  <<2017, 2017, 1, 27, 27>>, <<2017, 2017, 1, 30, 30>>, <<2017, 2017, 5, 3, 3>>,
  <<2017, 2017, 5, 9, 9>>, <<2017, 2017, 10, 4, 6>>,
  <<2018, 2018, 2, 15, 16>>, <<2018, 2018, 5, 22, 22>>, <<2018, 2018, 6, 13, 13>>,
  <<2018, 2018, 9, 24, 26>>,
  <<2019, 2019, 2, 4, 6>>, <<2019, 2019, 9, 12, 13>>,
  <<2020, 2020, 1, 24, 24>>, <<2020, 2020, 1, 27, 27>>, <<2020, 2020, 4, 15, 15>>,
  <<2020, 2020, 4, 30, 30>>, <<2020, 2020, 8, 17, 17>>, <<2020, 2020, 9, 30, 30>>,
  <<2020, 2020, 10, 1, 2>>,
  <<2021, 2021, 2, 11, 12>>, <<2021, 2021, 5, 19, 19>>, <<2021, 2021, 9, 20, 22>>,
  <<2022, 2022, 1, 31, 31>>, <<2022, 2022, 2, 1, 2>>, <<2022, 2022, 3, 9, 9>>,
  <<2022, 2022, 6, 1, 1>>, <<2022, 2022, 9, 9, 9>>, <<2022, 2022, 9, 12, 12>>,
  <<2023, 2023, 1, 23, 24>>, <<2023, 2023, 5, 29, 29>>, <<2023, 2023, 9, 28, 29>>,
  <<2023, 2023, 10, 2, 2>>,
  <<2024, 2024, 2, 9, 9>>, <<2024, 2024, 2, 12, 12>>, <<2024, 2024, 4, 10, 10>>,
  <<2024, 2024, 5, 15, 15>>, <<2024, 2024, 9, 16, 18>>, <<2024, 2024, 10, 1, 1>>,
  <<2025, 2025, 1, 28, 30>>, <<2025, 2025, 5, 6, 6>>, <<2025, 2025, 10, 6, 8>>,
  <<2026, 2026, 2, 16, 18>>, <<2026, 2026, 5, 25, 25>>, <<2026, 2026, 9, 24, 25>>,
  <<2027, 2027, 2, 8, 9>>, <<2027, 2027, 5, 13, 13>>, <<2027, 2027, 9, 14, 16>>,
  <<2028, 2028, 1, 26, 28>>, <<2028, 2028, 5, 2, 2>>, <<2028, 2028, 10, 2, 2>>,
  <<2028, 2028, 10, 4, 5>>,
  <<2029, 2029, 2, 12, 14>>, <<2029, 2029, 5, 21, 21>>, <<2029, 2029, 9, 21, 21>>,
  <<2029, 2029, 9, 24, 24>>,
  <<2030, 2030, 2, 4, 5>>, <<2030, 2030, 5, 9, 9>>, <<2030, 2030, 9, 11, 13>>,
  <<2031, 2031, 1, 22, 24>>, <<2031, 2031, 5, 28, 28>>, <<2031, 2031, 9, 30, 30>>,
  <<2031, 2031, 10, 1, 2>>,
  <<2032, 2032, 2, 10, 12>>, <<2032, 2032, 5, 17, 17>>, <<2032, 2032, 9, 20, 21>>,
  <<2033, 2033, 1, 31, 31>>, <<2033, 2033, 2, 1, 2>>, <<2033, 2033, 5, 6, 6>>,
  <<2033, 2033, 9, 7, 9>>,
  <<2034, 2034, 2, 20, 21>>, <<2034, 2034, 5, 25, 25>>, <<2034, 2034, 9, 26, 28>>,
  <<2035, 2035, 2, 7, 9>>, <<2035, 2035, 5, 15, 15>>, <<2035, 2035, 9, 17, 18>>,
  <<2036, 2036, 1, 28, 30>>, <<2036, 2036, 5, 6, 6>>, <<2036, 2036, 10, 6, 7>>,
  <<2037, 2037, 2, 16, 17>>, <<2037, 2037, 5, 22, 22>>, <<2037, 2037, 9, 23, 25>>,
  <<2038, 2038, 2, 3, 5>>, <<2038, 2038, 5, 11, 11>>, <<2038, 2038, 9, 13, 15>>,
  <<2039, 2039, 1, 24, 26>>, <<2039, 2039, 5, 2, 2>>, <<2039, 2039, 10, 4, 5>>,
  <<2040, 2040, 2, 13, 14>>, <<2040, 2040, 5, 18, 18>>, <<2040, 2040, 9, 20, 21>>,
  <<2041, 2041, 1, 31, 31>>, <<2041, 2041, 2, 1, 1>>, <<2041, 2041, 5, 7, 7>>,
  <<2041, 2041, 9, 9, 11>>,
  <<2042, 2042, 1, 21, 23>>, <<2042, 2042, 5, 26, 26>>, <<2042, 2042, 9, 29, 30>>,
  <<2043, 2043, 2, 9, 11>>, <<2043, 2043, 5, 18, 18>>, <<2043, 2043, 9, 16, 18>>,
  <<2044, 2044, 1, 29, 29>>, <<2044, 2044, 2, 1, 1>>, <<2044, 2044, 5, 6, 6>>,
  <<2044, 2044, 10, 4, 6>>,
  <<2045, 2045, 2, 16, 17>>, <<2045, 2045, 5, 24, 24>>, <<2045, 2045, 9, 25, 27>>,
  <<2046, 2046, 2, 5, 7>>, <<2046, 2046, 5, 14, 14>>, <<2046, 2046, 9, 14, 14>>,
  <<2046, 2046, 9, 17, 17>>,
  <<2047, 2047, 1, 25, 25>>, <<2047, 2047, 1, 28, 28>>, <<2047, 2047, 5, 2, 2>>,
  <<2047, 2047, 10, 4, 4>>, <<2047, 2047, 10, 7, 7>>,
  <<2048, 2048, 2, 13, 14>>, <<2048, 2048, 5, 20, 20>>, <<2048, 2048, 9, 21, 23>>,
  <<2049, 2049, 2, 1, 3>>, <<2049, 2049, 5, 10, 10>>, <<2049, 2049, 9, 10, 10>>,
  <<2049, 2049, 9, 13, 13>>,
  <<2050, 2050, 1, 24, 25>>, <<2050, 2050, 5, 30, 30>>, <<2050, 2050, 9, 29, 30>>}

TaiwanTable == {
  <<2002, 2002, 2, 11, 15>>,
  <<2003, 2003, 1, 31, 31>>, <<2003, 2003, 2, 3, 5>>, <<2003, 2003, 6, 4, 4>>,
  <<2003, 2003, 9, 11, 11>>,
  <<2004, 2004, 1, 21, 23>>, <<2004, 2004, 1, 26, 26>>, <<2004, 2004, 6, 22, 22>>,
  <<2004, 2004, 9, 28, 28>>,
  <<2005, 2005, 2, 7, 11>>, <<2005, 2005, 5, 2, 2>>,
  <<2006, 2006, 1, 30, 31>>, <<2006, 2006, 2, 1, 3>>, <<2006, 2006, 5, 31, 31>>,
  <<2006, 2006, 10, 6, 6>>,
  <<2007, 2007, 2, 19, 23>>, <<2007, 2007, 4, 6, 6>>, <<2007, 2007, 6, 18, 19>>,
  <<2007, 2007, 9, 24, 25>>,
  <<2008, 2008, 2, 4, 8>>, <<2008, 2008, 2, 11, 11>>, <<2008, 2008, 4, 4, 4>>,
  <<2009, 2009, 1, 2, 2>>, <<2009, 2009, 1, 26, 30>>, <<2009, 2009, 5, 28, 29>>,
  <<2010, 2010, 2, 15, 19>>, <<2010, 2010, 6, 16, 16>>, <<2010, 2010, 9, 22, 22>>,
  <<2011, 2011, 2, 2, 4>>, <<2011, 2011, 2, 7, 7>>, <<2011, 2011, 4, 4, 4>>,
  <<2011, 2011, 5, 2, 2>>, <<2011, 2011, 6, 6, 6>>, <<2011, 2011, 9, 12, 12>>,
  <<2012, 2012, 1, 23, 27>>, <<2012, 2012, 2, 27, 27>>, <<2012, 2012, 4, 4, 4>>,
  <<2012, 2012, 12, 31, 31>>,
  <<2013, 2013, 2, 11, 15>>, <<2013, 2013, 4, 4, 4>>, <<2013, 2013, 6, 12, 12>>,
  <<2013, 2013, 9, 19, 20>>,
  <<2014, 2014, 1, 28, 31>>, <<2014, 2014, 2, 3, 4>>, <<2014, 2014, 4, 4, 4>>,
  <<2014, 2014, 6, 2, 2>>, <<2014, 2014, 9, 8, 8>>,
  <<2015, 2015, 1, 2, 2>>, <<2015, 2015, 2, 18, 20>>, <<2015, 2015, 2, 23, 23>>,
  <<2015, 2015, 2, 27, 27>>, <<2015, 2015, 4, 3, 3>>, <<2015, 2015, 4, 6, 6>>,
  <<2015, 2015, 6, 19, 19>>, <<2015, 2015, 9, 28, 28>>, <<2015, 2015, 10, 9, 9>>,
  <<2016, 2016, 2, 8, 12>>, <<2016, 2016, 2, 29, 29>>, <<2016, 2016, 4, 4, 4>>,
  <<2016, 2016, 5, 2, 2>>, <<2016, 2016, 6, 9, 10>>, <<2016, 2016, 9, 15, 16>>,
  <<2017, 2017, 1, 2, 2>>, <<2017, 2017, 1, 27, 27>>, <<2017, 2017, 1, 30, 31>>,
  <<2017, 2017, 2, 1, 1>>, <<2017, 2017, 2, 27, 27>>, <<2017, 2017, 4, 3, 4>>,
  <<2017, 2017, 5, 29, 30>>, <<2017, 2017, 10, 4, 4>>, <<2017, 2017, 10, 9, 9>>,
  <<2018, 2018, 2, 15, 16>>, <<2018, 2018, 2, 19, 20>>, <<2018, 2018, 4, 4, 4>>,
  <<2018, 2018, 4, 6, 6>>, <<2018, 2018, 6, 18, 18>>, <<2018, 2018, 9, 24, 24>>,
  <<2018, 2018, 12, 31, 31>>,
  <<2019, 2019, 2, 4, 8>>, <<2019, 2019, 3, 1, 1>>, <<2019, 2019, 4, 4, 4>>,
  <<2019, 2019, 6, 7, 7>>, <<2019, 2019, 9, 13, 13>>, <<2019, 2019, 10, 11, 11>>,
  <<2020, 2020, 1, 23, 24>>, <<2020, 2020, 1, 27, 29>>, <<2020, 2020, 4, 2, 3>>,
  <<2020, 2020, 6, 25, 26>>, <<2020, 2020, 10, 1, 2>>, <<2020, 2020, 10, 9, 9>>,
  <<2021, 2021, 2, 10, 12>>, <<2021, 2021, 2, 15, 16>>, <<2021, 2021, 3, 1, 1>>,
  <<2021, 2021, 4, 2, 2>>, <<2021, 2021, 4, 30, 30>>, <<2021, 2021, 6, 14, 14>>,
  <<2021, 2021, 9, 20, 21>>, <<2021, 2021, 10, 11, 11>>, <<2021, 2021, 12, 31, 31>>,
  <<2022, 2022, 1, 31, 31>>, <<2022, 2022, 2, 1, 4>>, <<2022, 2022, 4, 4, 4>>,
  <<2022, 2022, 5, 2, 2>>, <<2022, 2022, 6, 3, 3>>, <<2022, 2022, 9, 9, 9>>,
  <<2023, 2023, 1, 2, 2>>, <<2023, 2023, 1, 20, 20>>, <<2023, 2023, 1, 23, 27>>,
  <<2023, 2023, 2, 27, 27>>, <<2023, 2023, 4, 3, 4>>, <<2023, 2023, 6, 22, 23>>,
  <<2023, 2023, 9, 29, 29>>, <<2023, 2023, 10, 9, 9>>,
  <<2024, 2024, 2, 8, 9>>, <<2024, 2024, 2, 12, 14>>, <<2024, 2024, 4, 4, 4>>,
  <<2024, 2024, 6, 10, 10>>, <<2024, 2024, 9, 17, 17>>,
  <<2025, 2025, 1, 23, 24>>, <<2025, 2025, 1, 27, 31>>, <<2025, 2025, 4, 3, 4>>,
  <<2025, 2025, 5, 30, 30>>, <<2025, 2025, 10, 6, 6>>,
  <<2026, 2026, 2, 12, 13>>, <<2026, 2026, 2, 16, 20>>, <<2026, 2026, 2, 27, 27>>,
  <<2026, 2026, 4, 3, 3>>, <<2026, 2026, 4, 6, 6>>, <<2026, 2026, 6, 19, 19>>,
  <<2026, 2026, 9, 25, 25>>, <<2026, 2026, 10, 9, 9>>}

ThailandTable == {
  <<2000, 2000, 2, 21, 21>>, <<2000, 2000, 5, 5, 5>>, <<2000, 2000, 5, 17, 17>>,
  <<2000, 2000, 7, 17, 17>>,
  <<2001, 2001, 2, 8, 8>>, <<2001, 2001, 5, 7, 8>>, <<2001, 2001, 7, 6, 6>>,
  <<2005, 2005, 2, 23, 23>>, <<2005, 2005, 5, 5, 5>>, <<2005, 2005, 5, 23, 23>>,
  <<2005, 2005, 7, 1, 1>>, <<2005, 2005, 7, 22, 22>>,
  <<2006, 2006, 2, 13, 13>>, <<2006, 2006, 4, 19, 19>>, <<2006, 2006, 5, 5, 5>>,
  <<2006, 2006, 5, 12, 12>>, <<2006, 2006, 6, 12, 13>>, <<2006, 2006, 7, 11, 11>>,
  <<2007, 2007, 3, 5, 5>>, <<2007, 2007, 5, 7, 7>>, <<2007, 2007, 5, 31, 31>>,
  <<2007, 2007, 7, 30, 30>>, <<2007, 2007, 12, 24, 24>>,
  <<2008, 2008, 2, 21, 21>>, <<2008, 2008, 5, 5, 5>>, <<2008, 2008, 5, 19, 19>>,
  <<2008, 2008, 7, 1, 1>>, <<2008, 2008, 7, 17, 17>>,
  <<2009, 2009, 1, 2, 2>>, <<2009, 2009, 2, 9, 9>>, <<2009, 2009, 5, 5, 5>>,
  <<2009, 2009, 5, 8, 8>>, <<2009, 2009, 7, 1, 1>>, <<2009, 2009, 7, 6, 7>>,
  <<2010, 2010, 3, 1, 1>>, <<2010, 2010, 5, 5, 5>>, <<2010, 2010, 5, 20, 21>>,
  <<2010, 2010, 5, 28, 28>>, <<2010, 2010, 7, 1, 1>>, <<2010, 2010, 7, 26, 26>>,
  <<2010, 2010, 8, 13, 13>>,
  <<2011, 2011, 2, 18, 18>>, <<2011, 2011, 5, 5, 5>>, <<2011, 2011, 5, 16, 17>>,
  <<2011, 2011, 7, 1, 1>>, <<2011, 2011, 7, 15, 15>>,
  <<2012, 2012, 1, 3, 3>>, <<2012, 2012, 3, 7, 7>>, <<2012, 2012, 4, 9, 9>>,
  <<2012, 2012, 5, 7, 7>>, <<2012, 2012, 6, 4, 4>>, <<2012, 2012, 8, 2, 2>>,
  <<2013, 2013, 2, 25, 25>>, <<2013, 2013, 5, 6, 6>>, <<2013, 2013, 5, 24, 24>>,
  <<2013, 2013, 7, 1, 1>>, <<2013, 2013, 7, 22, 22>>, <<2013, 2013, 12, 30, 30>>,
  <<2014, 2014, 2, 14, 14>>, <<2014, 2014, 5, 5, 5>>, <<2014, 2014, 5, 13, 13>>,
  <<2014, 2014, 7, 1, 1>>, <<2014, 2014, 7, 11, 11>>, <<2014, 2014, 8, 11, 11>>,
  <<2015, 2015, 1, 2, 2>>, <<2015, 2015, 3, 4, 4>>, <<2015, 2015, 5, 4, 5>>,
  <<2015, 2015, 6, 1, 1>>, <<2015, 2015, 7, 1, 1>>, <<2015, 2015, 7, 30, 30>>,
  <<2016, 2016, 2, 22, 22>>, <<2016, 2016, 5, 5, 6>>, <<2016, 2016, 5, 20, 20>>,
  <<2016, 2016, 7, 1, 1>>, <<2016, 2016, 7, 18, 19>>,
  <<2017, 2017, 2, 13, 13>>, <<2017, 2017, 5, 10, 10>>, <<2017, 2017, 7, 10, 10>>,
  <<2017, 2017, 10, 26, 26>>,
  <<2018, 2018, 3, 1, 1>>, <<2018, 2018, 5, 29, 29>>, <<2018, 2018, 7, 27, 27>>,
  <<2019, 2019, 2, 19, 19>>, <<2019, 2019, 5, 20, 20>>, <<2019, 2019, 7, 16, 16>>,
  <<2020, 2020, 2, 10, 10>>, <<2020, 2020, 5, 6, 6>>, <<2020, 2020, 7, 6, 6>>,
  <<2020, 2020, 7, 27, 27>>, <<2020, 2020, 9, 4, 4>>, <<2020, 2020, 9, 7, 7>>,
  <<2020, 2020, 12, 11, 11>>,
  <<2021, 2021, 2, 12, 12>>, <<2021, 2021, 2, 26, 26>>, <<2021, 2021, 5, 26, 26>>,
  <<2021, 2021, 7, 26, 26>>, <<2021, 2021, 9, 24, 24>>, <<2021, 2021, 10, 22, 22>>,
  <<2022, 2022, 2, 16, 16>>, <<2022, 2022, 5, 16, 16>>, <<2022, 2022, 7, 13, 13>>,
  <<2022, 2022, 7, 29, 29>>, <<2022, 2022, 10, 14, 14>>,
  <<2023, 2023, 3, 6, 6>>, <<2023, 2023, 5, 5, 5>>, <<2023, 2023, 8, 1, 1>>,
  <<2023, 2023, 12, 29, 29>>,
  <<2024, 2024, 2, 26, 26>>, <<2024, 2024, 4, 12, 12>>, <<2024, 2024, 5, 22, 22>>,
  <<2024, 2024, 7, 22, 22>>,
  <<2025, 2025, 2, 12, 12>>, <<2025, 2025, 5, 12, 12>>, <<2025, 2025, 7, 10, 10>>}

TurkeyTable == {
  <<2004, 2004, 2, 2, 4>>, <<2004, 2004, 11, 15, 16>>,
  <<2005, 2005, 1, 19, 21>>, <<2005, 2005, 11, 2, 4>>,
  <<2006, 2006, 1, 10, 13>>, <<2006, 2006, 10, 23, 25>>,
  <<2007, 2007, 1, 2, 3>>, <<2007, 2007, 10, 12, 12>>, <<2007, 2007, 12, 20, 21>>,
  <<2008, 2008, 9, 30, 30>>, <<2008, 2008, 10, 1, 2>>, <<2008, 2008, 12, 8, 11>>,
  <<2009, 2009, 9, 21, 22>>, <<2009, 2009, 11, 27, 27>>, <<2009, 2009, 11, 30, 30>>,
  <<2010, 2010, 9, 9, 10>>, <<2010, 2010, 11, 16, 19>>,
  <<2011, 2011, 11, 9, 11>>,
  <<2012, 2012, 8, 20, 21>>, <<2012, 2012, 10, 24, 26>>,
  <<2013, 2013, 8, 7, 9>>, <<2013, 2013, 10, 14, 18>>, <<2013, 2013, 10, 28, 28>>,
  <<2014, 2014, 7, 28, 30>>, <<2014, 2014, 10, 6, 7>>,
  <<2015, 2015, 7, 17, 17>>, <<2015, 2015, 10, 26, 27>>,
  <<2016, 2016, 7, 5, 7>>, <<2016, 2016, 9, 12, 15>>,
  <<2017, 2017, 6, 26, 27>>, <<2017, 2017, 9, 1, 1>>, <<2017, 2017, 9, 4, 4>>,
  <<2018, 2018, 6, 15, 15>>, <<2018, 2018, 8, 21, 24>>,
  <<2019, 2019, 6, 4, 6>>, <<2019, 2019, 8, 12, 14>>,
  <<2020, 2020, 5, 25, 26>>, <<2020, 2020, 7, 31, 31>>, <<2020, 2020, 8, 3, 3>>,
  <<2021, 2021, 5, 13, 14>>, <<2021, 2021, 7, 20, 23>>,
  <<2022, 2022, 5, 2, 4>>, <<2022, 2022, 7, 11, 12>>,
  <<2023, 2023, 4, 21, 21>>, <<2023, 2023, 6, 28, 30>>,
  <<2024, 2024, 4, 10, 12>>, <<2024, 2024, 6, 17, 19>>,
  <<2025, 2025, 3, 31, 31>>, <<2025, 2025, 4, 1, 2>>, <<2025, 2025, 6, 6, 6>>,
  <<2025, 2025, 6, 9, 9>>,
  <<2026, 2026, 3, 20, 20>>, <<2026, 2026, 5, 26, 29>>,
  <<2027, 2027, 3, 10, 12>>, <<2027, 2027, 5, 17, 18>>,
  <<2028, 2028, 2, 28, 29>>, <<2028, 2028, 5, 4, 5>>,
  <<2029, 2029, 2, 15, 16>>, <<2029, 2029, 4, 24, 26>>,
  <<2030, 2030, 2, 5, 7>>, <<2030, 2030, 4, 15, 16>>,
  <<2031, 2031, 1, 27, 27>>, <<2031, 2031, 4, 2, 4>>,
  <<2032, 2032, 1, 14, 16>>, <<2032, 2032, 3, 22, 24>>,
  <<2033, 2033, 1, 3, 5>>, <<2033, 2033, 3, 11, 11>>, <<2033, 2033, 3, 14, 14>>,
  <<2033, 2033, 12, 23, 23>>,
  <<2034, 2034, 2, 28, 28>>, <<2034, 2034, 3, 1, 3>>, <<2034, 2034, 12, 12, 14>>}
=============================================================================
