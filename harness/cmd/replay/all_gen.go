// Code generated by gosym gen. DO NOT EDIT.

package main

import "vharness/h"

var all = map[string]func(){
	"ActivePoint": h.ActivePoint,
	"ActiveUninherited": h.ActiveUninherited,
	"AimStrain": h.AimStrain,
	"AnyLine": h.AnyLine,
	"ApproachDefault": h.ApproachDefault,
	"BPMRange": h.BPMRange,
	"BezierFlattening": h.BezierFlattening,
	"BezierForm": h.BezierForm,
	"BezierPath": h.BezierPath,
	"Binomials": h.Binomials,
	"CircleFields": h.CircleFields,
	"Combos": h.Combos,
	"Compatible": h.Compatible,
	"Corrupted": h.Corrupted,
	"DerivedFormulas": h.DerivedFormulas,
	"DifficultySection": h.DifficultySection,
	"DifficultyValues": h.DifficultyValues,
	"Events": h.Events,
	"FailingReader": h.FailingReader,
	"FailingReaderText": h.FailingReaderText,
	"FlashlightStrain": h.FlashlightStrain,
	"HarderEasier": h.HarderEasier,
	"Identifiers": h.Identifiers,
	"Inheritance": h.Inheritance,
	"Layout": h.Layout,
	"LazySliders": h.LazySliders,
	"LinearPath": h.LinearPath,
	"LongCombos": h.LongCombos,
	"LongLine": h.LongLine,
	"LongPosition": h.LongPosition,
	"LongRhythm": h.LongRhythm,
	"LongSlider": h.LongSlider,
	"LongStacks": h.LongStacks,
	"LongSteps": h.LongSteps,
	"LongStrain": h.LongStrain,
	"MalformedEvent": h.MalformedEvent,
	"MalformedObject": h.MalformedObject,
	"MalformedPoint": h.MalformedPoint,
	"MalformedSpeed": h.MalformedSpeed,
	"ManyObjects": h.ManyObjects,
	"ManyPoints": h.ManyPoints,
	"MapLength": h.MapLength,
	"Metadata": h.Metadata,
	"ModImplied": h.ModImplied,
	"ModParse": h.ModParse,
	"ModUnicode": h.ModUnicode,
	"ModWindows": h.ModWindows,
	"ObjectMetrics": h.ObjectMetrics,
	"ObjectOrder": h.ObjectOrder,
	"PPDefaults": h.PPDefaults,
	"PPFinite": h.PPFinite,
	"PPFormula": h.PPFormula,
	"PPHistory": h.PPHistory,
	"PPMonotone": h.PPMonotone,
	"PathLength": h.PathLength,
	"PathPoint": h.PathPoint,
	"PeakSections": h.PeakSections,
	"PeakVariants": h.PeakVariants,
	"PointColumns": h.PointColumns,
	"PointRatio": h.PointRatio,
	"RatingsFromSkills": h.RatingsFromSkills,
	"RhythmBonus": h.RhythmBonus,
	"ScoreMultiplier": h.ScoreMultiplier,
	"SectionBorders": h.SectionBorders,
	"SetterHistory": h.SetterHistory,
	"ShortReads": h.ShortReads,
	"SliderSpan": h.SliderSpan,
	"SliderTicks": h.SliderTicks,
	"SpeedStrain": h.SpeedStrain,
	"StackLeniency": h.StackLeniency,
	"StackSlots": h.StackSlots,
	"StackedPosition": h.StackedPosition,
	"StarModGating": h.StarModGating,
	"StarPurity": h.StarPurity,
	"StarRelaxFlashlight": h.StarRelaxFlashlight,
	"StarTotality": h.StarTotality,
	"StepIsPrefix": h.StepIsPrefix,
	"StrainSections": h.StrainSections,
	"TinyFile": h.TinyFile,
	"ValueKeepsPeaks": h.ValueKeepsPeaks,
	"Velocity": h.Velocity,
	"WindowRanges": h.WindowRanges,
}
