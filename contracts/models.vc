@opaque PathBuf
@types ArtefactId RequirementId LocationInFile Location Reference Requirement Artefact Error Relation Graph
@types CoverageDirection Coverage TracedRelation TracedGraph
@eq ArtefactId RequirementId
@derive ArtefactId PartialEq Eq PartialOrd Ord
@derive RequirementId PartialEq Eq PartialOrd Ord
@derive Relation PartialEq Eq PartialOrd Ord
